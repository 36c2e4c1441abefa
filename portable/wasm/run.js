// node run.js FILE sets | run SET SEED FROM TO | case SET V V V ...   (see ../src/main.rs)
const fs = require("fs");
const [file, what, , ...rest] = process.argv.slice(2);
const module_ = new WebAssembly.Module(fs.readFileSync(file));
const imports = {};
for (const i of WebAssembly.Module.imports(module_)) {
  (imports[i.module] ??= {})[i.name] = () => {
    throw new Error("import " + i.name);
  };
}
const x = new WebAssembly.Instance(module_, imports).exports;
const text = (at) => {
  const m = new Uint8Array(x.memory.buffer);
  return Buffer.from(m.subarray(at >>> 0, m.indexOf(0, at >>> 0))).toString();
};
const print = (l) => fs.writeSync(1, l + "\n");
x.start();
let at = 0;
let lines = [];
try {
  if (what === "sets") {
    print("sets [0]");
  } else if (what === "run") {
    const [seed, from, to] = rest.map(BigInt);
    for (at = from; at < to; at++) {
      lines.push(text(x.generated(seed, at)));
      if (lines.length === 100) print(lines.splice(0).join("\n"));
    }
    if (lines.length) print(lines.join("\n"));
  } else {
    rest.forEach((v, k) => x.choose(k, BigInt(v)));
    print(text(x.chosen()));
  }
} catch (e) {
  const m = text(x.panic_message());
  if (lines.length) print(lines.join("\n"));
  print("> " + at);
  fs.writeSync(2, m ? `thread 'main' panicked at ${m}\n` : `error: Undefined Behavior: trap, ${e.message}\n`);
  process.exit(1);
}
