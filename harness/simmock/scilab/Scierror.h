#ifndef VF_SCIERROR_H
#define VF_SCIERROR_H
#ifdef __cplusplus
extern "C" {
#endif
int Scierror(int code, const char* fmt, ...);
#ifdef __cplusplus
}
#endif
#endif
