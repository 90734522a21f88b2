// Out-of-line parts of libstdc++ that the instantiated templates refer to, as bitcode for the symbolic executor.
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <exception>
#include <list>
#include <map>
#include <unordered_map>
#include <functional>
#include <cstdlib>
#include <cstring>
#include <system_error>
#include <memory>
#include <variant>
#include <optional>
#include <cstdint>
extern "C" uint64_t sym_u64_to_str(char* b, uint64_t v){ char t[32]; int n=0; do { t[n++]='0'+v%10; v/=10; } while(v); for(int i=0;i<n;i++) b[i]=t[n-1-i]; b[n]=0; return n; }
#include <cmath>
extern "C" { int* __errno_location() noexcept { static int e = 0; return &e; } double hypot(double x, double y) noexcept { return sqrt(x * x + y * y); } long lround(double x) noexcept { return (long)round(x); } long long llround(double x) noexcept { return (long long)round(x); } }
template class std::basic_string<char>;
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static char* dupS(const char* s, size_t n){ char* p=(char*)malloc(n+1); memcpy(p,s,n); p[n]=0; return p; }
// layout compatible stand-in: a heap C string
__cow_string::__cow_string():_M_p(dupS("",0)){}
__cow_string::__cow_string(const std::string& s):_M_p(dupS(s.data(),s.size())){}
__cow_string::__cow_string(const char* s, size_t n):_M_p(dupS(s,n)){}
__cow_string::__cow_string(const __cow_string& o) noexcept :_M_p(dupS(o._M_p,strlen(o._M_p))){}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if(this!=&o){ free((void*)_M_p); _M_p=dupS(o._M_p,strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string(){ free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept :_M_p(dupS(o._M_p,strlen(o._M_p))){}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this=(const __cow_string&)o; }
#define EXC(n,b) n::n(const string& s):b(s){} n::n(const char* s):b(s){} n::~n() noexcept {}
logic_error::logic_error(const string& s):_M_msg(s){} logic_error::logic_error(const char* s):_M_msg(s,strlen(s)){} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg=o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg){} logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg=o._M_msg; return *this; }
runtime_error::runtime_error(const string& s):_M_msg(s){} runtime_error::runtime_error(const char* s):_M_msg(s,strlen(s)){} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg=o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg){} runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg=o._M_msg; return *this; }
EXC(domain_error,logic_error) EXC(invalid_argument,logic_error) EXC(length_error,logic_error) EXC(out_of_range,logic_error) EXC(range_error,runtime_error) EXC(overflow_error,runtime_error) EXC(underflow_error,runtime_error)
void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_exception(){ throw bad_exception(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_typeid(){ throw bad_typeid(); } void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_logic_error(const char* s){ throw logic_error(s); } void __throw_domain_error(const char* s){ throw domain_error(s); } void __throw_invalid_argument(const char* s){ throw invalid_argument(s); } void __throw_length_error(const char* s){ throw length_error(s); } void __throw_out_of_range(const char* s){ throw out_of_range(s); } void __throw_runtime_error(const char* s){ throw runtime_error(s); } void __throw_range_error(const char* s){ throw range_error(s); } void __throw_overflow_error(const char* s){ throw overflow_error(s); } void __throw_underflow_error(const char* s){ throw underflow_error(s); }
void __throw_out_of_range_fmt(const char* s, ...){ throw out_of_range(s); }
type_info::~type_info(){} 
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info* t, void**, unsigned) const { return *this==*t; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
bool uncaught_exception() noexcept { return false; }
// ---- lists ----
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
    else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } }
  else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept { if(this!=last){ last->_M_prev->_M_next=this; first->_M_prev->_M_next=last; this->_M_prev->_M_next=first; _List_node_base* const tmp=this->_M_prev; this->_M_prev=last->_M_prev; last->_M_prev=first->_M_prev; first->_M_prev=tmp; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n=this->_M_next; _List_node_base* const p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
static const size_t gmPrimes[]={2,3,5,7,11,13,17,19,23,29,37,53,97,193,389,769,1543,3079,6151,12289,24593,49157,98317,196613,393241,786433,1572869};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for(size_t p: gmPrimes) if(p>=n && p>=1){ const_cast<_Prime_rehash_policy*>(this)->_M_next_resize=(size_t)(p*(double)_M_max_load_factor); return p; } return n|1; }
std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if(ne+ni>_M_next_resize){ size_t need=std::max<size_t>(ne+ni,_M_next_resize?0:11); if(need>=nb*_M_max_load_factor){ size_t x=need+1; if(nb*2>x) x=nb*2; return {true,_M_next_bkt(x)}; } const_cast<_Prime_rehash_policy*>(this)->_M_next_resize=(size_t)(nb*(double)_M_max_load_factor); return {false,0}; }
  return {false,0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed){ const unsigned char* c=(const unsigned char*)p; size_t h=seed^1469598103934665603ull; for(size_t i=0;i<n;i++){ h^=c[i]; h*=1099511628211ull; } return h; }
// ---- red black trees ----
typedef _Rb_tree_node_base* BP;
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { BP y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<BP>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ BP y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { BP y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<BP>(x)); }
static void rotL(BP const x, BP& root){ BP const y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotR(BP const x, BP& root){ BP const y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) throw() { BP& root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ BP const xpp=x->_M_parent->_M_parent;
    if(x->_M_parent==xpp->_M_left){ BP const y=xpp->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotL(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotR(xpp,root); } }
    else { BP const y=xpp->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotR(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotL(xpp,root); } } }
  root->_M_color=_S_black; }
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) throw() { BP& root=h._M_parent; BP& leftmost=h._M_left; BP& rightmost=h._M_right; BP y=z; BP x=0; BP xp=0;
  if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(leftmost==z){ if(z->_M_right==0) leftmost=z->_M_parent; else { BP m=x; while(m->_M_left) m=m->_M_left; leftmost=m; } } if(rightmost==z){ if(z->_M_left==0) rightmost=z->_M_parent; else { BP m=x; while(m->_M_right) m=m->_M_right; rightmost=m; } } }
  if(y->_M_color!=_S_red){ while(x!=root&&(x==0||x->_M_color==_S_black)) if(x==xp->_M_left){ BP w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotL(xp,root); w=xp->_M_right; }
        if((w->_M_left==0||w->_M_left->_M_color==_S_black)&&(w->_M_right==0||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(w->_M_right==0||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotR(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotL(xp,root); break; } }
      else { BP w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotR(xp,root); w=xp->_M_left; }
        if((w->_M_right==0||w->_M_right->_M_color==_S_black)&&(w->_M_left==0||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(w->_M_left==0||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotL(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotR(xp,root); break; } }
    if(x) x->_M_color=_S_black; }
  return y; }
}
