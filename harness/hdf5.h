// A small in-memory stand-in for the part of the HDF5 C library that OpenGM calls: files, groups, n-dimensional
// datasets of fixed-size numbers, attributes, hyperslab selections and the table of open handles. Like the library, every
// call checks its handles and arguments and returns a negative value when it cannot do what is asked; unlike the library it
// never converts between number types (reading or writing with another type than the dataset's fails).
#ifndef H5MEM_H
#define H5MEM_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/types.h>
#include <string>
#include <vector>
typedef int64_t hid_t; typedef int herr_t; typedef int htri_t; typedef unsigned long long hsize_t; typedef long long hssize_t;
namespace h5mem {
enum Kind { DEAD, FILE_, GROUP, DSET, SPACE, TYPE, ATTR, PLIST };
struct Node { bool dset; std::string name; std::vector<Node*> kids; std::vector<std::string> attrs; int type; std::vector<hsize_t> dims; void* data; size_t n; Node* file; };
struct Obj { Kind k; Node* node; int type; bool ro; std::vector<hsize_t> dims, off, cnt; };
struct Lib { std::vector<Obj> h; std::vector<Node*> files; size_t bad; Lib() : bad(0) {} };
inline Lib& lib() { static Lib l; return l; }
static const hid_t BASE = 1000;                                            // handles; predefined types are 1..63
inline hid_t add(const Obj& o) { lib().h.push_back(o); return BASE + (hid_t)lib().h.size() - 1; }
inline Obj* get(hid_t i, Kind k) { Lib& l = lib(); if (i < BASE || (size_t)(i - BASE) >= l.h.size() || l.h[i - BASE].k != k) return NULL; return &l.h[i - BASE]; }
inline herr_t close(hid_t i, Kind k) { Obj* o = get(i, k); if (!o) { ++lib().bad; return -1; } o->k = DEAD; return 0; }
inline size_t open() { size_t n = 0; for (size_t i = 0; i < lib().h.size(); ++i) n += lib().h[i].k != DEAD; return n; }
inline Obj obj(Kind k, Node* n) { Obj o; o.k = k; o.node = n; o.type = 0; o.ro = false; return o; }
inline Node* node(const char* name, bool dset, Node* file) { Node* n = new Node; n->name = name; n->dset = dset; n->data = NULL; n->n = 0; n->type = 0; n->file = file ? file : n; return n; }
inline Node* kid(Node* p, const char* name) { for (size_t i = 0; i < p->kids.size(); ++i) if (p->kids[i]->name == name) return p->kids[i]; return NULL; }
inline Obj* parent(hid_t i) { Obj* o = get(i, FILE_); return o ? o : get(i, GROUP); }
inline int typeOf(hid_t i) { if (i > 0 && i < 64) return (int)i; Obj* o = get(i, TYPE); return o ? o->type : 0; }
inline size_t typeSize(int t) { static const size_t s[] = {0, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8}; return t <= 10 ? s[t] : 0; }
inline size_t volume(const std::vector<hsize_t>& d) { size_t n = 1; for (size_t i = 0; i < d.size(); ++i) n *= d[i]; return n; }
inline bool inside(const Obj& s) { for (size_t i = 0; i < s.dims.size(); ++i) if (s.off[i] + s.cnt[i] > s.dims[i]) return false; return true; }
// position of the k-th selected element in row-major order
inline size_t at(const Obj& s, size_t k) { size_t p = 0, stride = 1; for (size_t i = s.dims.size(); i-- > 0;) { p += (s.off[i] + k % s.cnt[i]) * stride; k /= s.cnt[i]; stride *= s.dims[i]; } return p; }
inline herr_t move(hid_t ds, hid_t mt, hid_t ms, hid_t fs, void* buf, bool wr) {
  Obj* d = get(ds, DSET); if (!d || typeOf(mt) != d->node->type || (wr && d->ro) || !buf) return -1; Obj all = obj(SPACE, NULL); all.dims = all.cnt = d->node->dims; all.off.assign(all.dims.size(), 0);
  Obj f = all, m; if (fs != 0) { Obj* o = get(fs, SPACE); if (!o || o->dims != all.dims) return -1; f = *o; } m = f; if (ms != 0) { Obj* o = get(ms, SPACE); if (!o) return -1; m = *o; } else if (fs == 0) m = all;
  if (volume(m.cnt) != volume(f.cnt) || !inside(f) || !inside(m)) return -1; size_t w = typeSize(d->node->type), n = volume(f.cnt);
  for (size_t k = 0; k < n; ++k) { char* a = (char*)d->node->data + at(f, k) * w; char* b = (char*)buf + at(m, k) * w; if (wr) memcpy(a, b, w); else memcpy(b, a, w); } return 0; }
}
enum { H5T_STD_U8LE = 1, H5T_STD_U16LE, H5T_STD_U32LE, H5T_STD_U64LE, H5T_STD_I8LE, H5T_STD_I16LE, H5T_STD_I32LE, H5T_STD_I64LE, H5T_IEEE_F32LE, H5T_IEEE_F64LE };
enum { H5P_DEFAULT = 0, H5S_ALL = 0, H5F_ACC_RDONLY = 0, H5F_ACC_RDWR = 1, H5F_ACC_TRUNC = 2, H5P_FILE_ACCESS = 70, H5F_LIBVER_LATEST = 2, H5F_OBJ_ALL = 31, H5S_SELECT_SET = 0, H5T_DIR_DESCEND = 2 };
inline hid_t H5Tcopy(hid_t t) { int b = h5mem::typeOf(t); if (!b) return -1; h5mem::Obj o = h5mem::obj(h5mem::TYPE, NULL); o.type = b; return h5mem::add(o); }
inline herr_t H5Tclose(hid_t t) { return h5mem::close(t, h5mem::TYPE); }
inline hid_t H5Tget_native_type(hid_t t, int) { return H5Tcopy(t); }
inline htri_t H5Tequal(hid_t a, hid_t b) { int x = h5mem::typeOf(a), y = h5mem::typeOf(b); return !x || !y ? -1 : x == y; }
inline hid_t H5Pcreate(hid_t) { return h5mem::add(h5mem::obj(h5mem::PLIST, NULL)); }
inline herr_t H5Pclose(hid_t p) { return h5mem::close(p, h5mem::PLIST); }
inline herr_t H5Pset_libver_bounds(hid_t, int, int) { return 0; }
inline hid_t H5Screate_simple(int rank, const hsize_t* dims, const hsize_t*) { if (rank < 0) return -1; h5mem::Obj o = h5mem::obj(h5mem::SPACE, NULL); o.dims.assign(dims, dims + rank); o.cnt = o.dims; o.off.assign(rank, 0); return h5mem::add(o); }
inline herr_t H5Sclose(hid_t s) { return h5mem::close(s, h5mem::SPACE); }
inline int H5Sget_simple_extent_ndims(hid_t s) { h5mem::Obj* o = h5mem::get(s, h5mem::SPACE); return o ? (int)o->dims.size() : -1; }
inline int H5Sget_simple_extent_dims(hid_t s, hsize_t* d, hsize_t*) { h5mem::Obj* o = h5mem::get(s, h5mem::SPACE); if (!o) return -1; for (size_t i = 0; i < o->dims.size(); ++i) d[i] = o->dims[i]; return (int)o->dims.size(); }
inline herr_t H5Sselect_hyperslab(hid_t s, int, const hsize_t* off, const hsize_t* stride, const hsize_t* cnt, const hsize_t* block) { h5mem::Obj* o = h5mem::get(s, h5mem::SPACE); if (!o || stride || block) return -1; for (size_t i = 0; i < o->dims.size(); ++i) { o->off[i] = off[i]; o->cnt[i] = cnt[i]; } return 0; }
inline hid_t H5Fcreate(const char* name, unsigned, hid_t, hid_t) { h5mem::Lib& l = h5mem::lib(); h5mem::Node* f = h5mem::node(name, false, NULL); for (size_t i = 0; i < l.files.size(); ++i) if (l.files[i]->name == name) { for (size_t k = 0; k < l.h.size(); ++k) if (l.h[k].k != h5mem::DEAD && l.h[k].node && l.h[k].node->file == l.files[i]) return -1; /* still open */ l.files[i] = f; return h5mem::add(h5mem::obj(h5mem::FILE_, f)); } l.files.push_back(f); return h5mem::add(h5mem::obj(h5mem::FILE_, f)); }
inline hid_t H5Fopen(const char* name, unsigned mode, hid_t) { h5mem::Lib& l = h5mem::lib(); for (size_t i = 0; i < l.files.size(); ++i) if (l.files[i]->name == name) { h5mem::Obj o = h5mem::obj(h5mem::FILE_, l.files[i]); o.ro = mode == H5F_ACC_RDONLY; return h5mem::add(o); } return -1; }
inline herr_t H5Fclose(hid_t f) { return h5mem::close(f, h5mem::FILE_); }
inline ssize_t H5Fget_obj_count(hid_t, unsigned) { return (ssize_t)h5mem::open(); }
inline hid_t H5Gcreate(hid_t p, const char* name, hid_t, hid_t, hid_t) { h5mem::Obj* o = h5mem::parent(p); if (!o || o->ro || !*name || h5mem::kid(o->node, name)) return -1; h5mem::Node* n = h5mem::node(name, false, o->node->file); o->node->kids.push_back(n); return h5mem::add(h5mem::obj(h5mem::GROUP, n)); }
inline hid_t H5Gopen(hid_t p, const char* name, hid_t) { h5mem::Obj* o = h5mem::parent(p); h5mem::Node* n = o ? h5mem::kid(o->node, name) : NULL; if (!n || n->dset) return -1; h5mem::Obj g = h5mem::obj(h5mem::GROUP, n); g.ro = o->ro; return h5mem::add(g); }
inline herr_t H5Gclose(hid_t g) { return h5mem::close(g, h5mem::GROUP); }
inline hid_t H5Dcreate(hid_t p, const char* name, hid_t t, hid_t s, hid_t, hid_t, hid_t) { h5mem::Obj *o = h5mem::parent(p), *q = h5mem::get(s, h5mem::SPACE); int b = h5mem::typeOf(t); if (!o || o->ro || !q || !b || !*name || h5mem::kid(o->node, name)) return -1; h5mem::Node* n = h5mem::node(name, true, o->node->file); n->type = b; n->dims = q->dims; n->n = h5mem::volume(n->dims); n->data = ::operator new(n->n * h5mem::typeSize(b) + 8); memset(n->data, 0, n->n * h5mem::typeSize(b) + 8); o->node->kids.push_back(n); return h5mem::add(h5mem::obj(h5mem::DSET, n)); }
inline hid_t H5Dopen(hid_t p, const char* name, hid_t) { h5mem::Obj* o = h5mem::parent(p); h5mem::Node* n = o ? h5mem::kid(o->node, name) : NULL; if (!n || !n->dset) return -1; h5mem::Obj d = h5mem::obj(h5mem::DSET, n); d.ro = o->ro; return h5mem::add(d); }
inline herr_t H5Dclose(hid_t d) { return h5mem::close(d, h5mem::DSET); }
inline hid_t H5Dget_space(hid_t d) { h5mem::Obj* o = h5mem::get(d, h5mem::DSET); if (!o) return -1; std::vector<hsize_t> dims = o->node->dims; return H5Screate_simple((int)dims.size(), dims.data(), NULL); }
inline hid_t H5Dget_type(hid_t d) { h5mem::Obj* o = h5mem::get(d, h5mem::DSET); return o ? H5Tcopy(o->node->type) : -1; }
inline herr_t H5Dwrite(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t, const void* b) { return h5mem::move(d, t, ms, fs, (void*)b, true); }
inline herr_t H5Dread(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t, void* b) { return h5mem::move(d, t, ms, fs, b, false); }
inline hid_t H5Acreate(hid_t d, const char* name, hid_t, hid_t, hid_t, hid_t) { h5mem::Obj* o = h5mem::get(d, h5mem::DSET); if (!o || o->ro) return -1; for (size_t i = 0; i < o->node->attrs.size(); ++i) if (o->node->attrs[i] == name) return -1; o->node->attrs.push_back(name); return h5mem::add(h5mem::obj(h5mem::ATTR, o->node)); }
inline herr_t H5Awrite(hid_t a, hid_t, const void*) { return h5mem::get(a, h5mem::ATTR) ? 0 : -1; }
inline herr_t H5Aclose(hid_t a) { return h5mem::close(a, h5mem::ATTR); }
inline htri_t H5Aexists(hid_t d, const char* name) { h5mem::Obj* o = h5mem::get(d, h5mem::DSET); if (!o) return -1; for (size_t i = 0; i < o->node->attrs.size(); ++i) if (o->node->attrs[i] == name) return 1; return 0; }
#endif
