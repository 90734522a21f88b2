// Stand-in for the HDF5 library's version header (see hdf5.h here).
#ifndef H5VERSION_H
#define H5VERSION_H
#define H5_VERS_MAJOR 1
#define H5_VERS_MINOR 10
#endif
