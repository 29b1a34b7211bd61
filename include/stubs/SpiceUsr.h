// stand-in for the absent CSPICE header: declarations only, no behaviour
#pragma once
extern "C" {
typedef double SpiceDouble; typedef int SpiceInt; typedef char SpiceChar; typedef const char ConstSpiceChar; typedef int SpiceBoolean;
void bodvcd_c(int, const char*, int, int*, double*); void str2et_c(const char*, double*); void furnsh_c(const char*); void bodvrd_c(const char*, const char*, int, int*, double*); void bodn2c_c(const char*, int*, int*);
void spkezr_c(const char*, double, const char*, const char*, const char*, double*, double*); void spkez_c(int, double, const char*, const char*, int, double*, double*);
void pxform_c(const char*, const char*, double, double (*)[3]); void sxform_c(const char*, const char*, double, double (*)[6]); void bodc2n_c(int, int, char*, int*); void sce2s_c(int, double, int, char*);
}
#define SPICETRUE 1
#define SPICEFALSE 0
