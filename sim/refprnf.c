/* A second, uninstrumented copy of the prnf formatter, used only to compute reference output. */
#include <stdarg.h>
#include <stddef.h>
#define prnf ref_prnf
#define sprnf ref_sprnf
#define snprnf ref_snprnf
#define snappf ref_snappf
#define fptrprnf ref_fptrprnf
#define vprnf ref_vprnf
#define vsprnf ref_vsprnf
#define vsnprnf ref_vsnprnf
#define vsnappf ref_vsnappf
#define vfptrprnf ref_vfptrprnf
#define prnf_out_fptr ref_prnf_out_fptr
#include "prnf.c"
