.globl _start
.type _start,@function
_start:
 xorl %ebp,%ebp
 popl %esi
 movl %esp,%ecx
 andl $-16,%esp
 pushl %eax
 pushl %esp
 pushl %edx
 pushl $0
 pushl $0
 pushl %ecx
 pushl %esi
 pushl $main
 call __libc_start_main
 hlt
.globl __dso_handle
.data
__dso_handle: .long 0
.section .note.GNU-stack,"",@progbits
