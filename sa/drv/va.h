/* analysis-only: make va_arg visible as a call in the IR */
#ifndef VF_VA_H
#define VF_VA_H
void *__vf_va_arg(void *ap);
#define __builtin_va_arg(ap, type) (*(type *) __vf_va_arg(ap))
#endif
