// All the numbers of an HDF5 file.
#pragma once
#include <hdf5.h>
#include <H5Cpp.h>
#include <map>
#include <string>
#include <vector>

namespace h5 {
typedef std::map<std::string, std::vector<double>> File;

inline herr_t visit(hid_t id, const char *name, const H5O_info_t *info, void *p)
{
    if (info->type != H5O_TYPE_DATASET) {
        return 0;
    }
    File &f  = *(File *)p;
    hid_t d  = H5Dopen2(id, name, H5P_DEFAULT), t = H5Dget_type(d), s = H5Dget_space(d);
    auto cls = H5Tget_class(t);
    f[name]; // there, whatever it is
    if (cls == H5T_FLOAT || cls == H5T_INTEGER) {
        f[name].resize(H5Sget_simple_extent_npoints(s));
        if (!f[name].empty()) {
            H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, f[name].data());
        }
    }
    H5Sclose(s);
    H5Tclose(t);
    H5Dclose(d);
    return 0;
}
// false if there is no such file, or it is none
inline bool read(const std::string &name, File &f)
{
    f.clear();
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t h = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (h < 0) {
        return false;
    }
    H5Ovisit(h, H5_INDEX_NAME, H5_ITER_INC, visit, &f);
    H5Fclose(h);
    return true;
}
} // namespace h5
