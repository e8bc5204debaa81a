/* compiled together with the importer library: access to the public members of its instance */
#include <stdio.h>
#include <stdarg.h>
#include "FMI2.h"
#include "FMI3.h"

/* the mode the importer has on record, as a number that does not depend on the values of the enumeration */
int glue_mode(FMIInstance *i) {
    switch (i->state) {
    case FMIStartAndEndState:         return 0;
    case FMIInstantiatedState:        return 1;
    case FMIConfigurationModeState:   return 2;
    case FMIInitializationModeState:  return 3;
    case FMIEventModeState:           return 4;
    case FMIContinuousTimeModeState:  return 5;
    case FMIStepModeState:            return 6;
    case FMIClockActivationMode:      return 7;
    case FMIReconfigurationModeState: return 8;
    case FMITerminatedState:          return 9;
    default:                          return -1;
    }
}
const char *glue_buffer(FMIInstance *i) { return i->logMessageBuffer; }
void *glue_component(FMIInstance *i) { return i->component; }
const char *glue_name(FMIInstance *i) { return i->name; }
int glue_version(FMIInstance *i) { return i->fmiMajorVersion; }
void glue_set_version(FMIInstance *i, int v) { i->fmiMajorVersion = (FMIMajorVersion)v; }
int glue_interface(FMIInstance *i) { return i->interfaceType; }
static void silent(const char *message, va_list args) { char b[8192]; vsnprintf(b, sizeof b, message, args); }
void glue_init(void) { logErrorMessage = silent; }
int glue_type(const char *s) {
    static const struct { const char *n; int v; } t[] = {
        {"F32", FMIFloat32Type}, {"F64", FMIFloat64Type}, {"I8", FMIInt8Type}, {"U8", FMIUInt8Type}, {"I16", FMIInt16Type}, {"U16", FMIUInt16Type},
        {"I32", FMIInt32Type}, {"U32", FMIUInt32Type}, {"I64", FMIInt64Type}, {"U64", FMIUInt64Type}, {"BO", FMIBooleanType}, {"ST", FMIStringType},
        {"BI", FMIBinaryType}, {"CK", FMIClockType}, {"VR", FMIValueReferenceType}, {"SZ", FMISizeTType}};
    for (unsigned k = 0; k < sizeof t / sizeof *t; k++) { const char *a = t[k].n, *b = s; while (*a && *a == *b) a++, b++; if (*a == *b) return t[k].v; }
    return -1;
}
