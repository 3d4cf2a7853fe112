/* Declarations MEDLoader uses that the MED file library 4.1.0 of this sandbox does not have yet (signatures read off
   the call sites).  Only declared, for parsing: nothing is linked or run. */
#include <med.h>
#ifdef __cplusplus
extern "C" {
#endif
med_err MEDfileObjectDescriptionWr(const med_idt fid, const med_class cls, const char *const name, const char *const desc);
med_err MEDfileObjectDescriptionRd(const med_idt fid, const med_class cls, const char *const name, char *const desc);
med_err MEDfileObjectDescriptionExist(const med_idt fid, const med_class cls, const char *const name, med_bool *const exist);
#ifdef __cplusplus
}
#endif
