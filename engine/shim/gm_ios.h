// Minimal stream library used for the symbolic build only (formatting is not what the properties are about).
// cout/cerr discard; string streams build strings; file streams use an in-memory file table.
#pragma once
#include <iosfwd>
#include <string>
#include <vector>
#include <map>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <exception>
#include <stdexcept>
extern "C" { uint64_t sym_dbl_to_str(char*, double, uint64_t); uint64_t sym_u64_to_str(char*, uint64_t); }
namespace std {
class ios_base { public:
  typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir; typedef unsigned event;
  static const openmode in=1,out=2,app=4,binary=8,trunc=16,ate=32; static const iostate goodbit=0,badbit=1,eofbit=2,failbit=4;
  static const fmtflags fixed=1,scientific=2,showpoint=4,left=8,right=16,dec=32,hex=64,boolalpha=128,skipws=256,floatfield=3,adjustfield=24,basefield=96,internal=512,oct=1024,showpos=2048,uppercase=4096,unitbuf=8192;
  static const seekdir beg=0,cur=1,end=2;
  class failure : public runtime_error { public: failure(const string&s):runtime_error(s){} };
  class Init { public: Init(){} };
  streamsize prec_=6,width_=0; fmtflags fl_=0; iostate st_=0;
  streamsize precision()const{return prec_;} streamsize precision(streamsize p){streamsize o=prec_;prec_=p;return o;} streamsize width(){return width_;} streamsize width(streamsize w){streamsize o=width_;width_=w;return o;}
  fmtflags flags()const{return fl_;} fmtflags flags(fmtflags f){fmtflags o=fl_;fl_=f;return o;} fmtflags setf(fmtflags f){fmtflags o=fl_;fl_|=f;return o;} fmtflags setf(fmtflags f,fmtflags m){fmtflags o=fl_;fl_=(fl_&~m)|f;return o;} void unsetf(fmtflags f){fl_&=~f;}
};
template<class C,class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; virtual ~basic_streambuf(){} };
template<class C,class T> class basic_ios : public ios_base { public: typedef C char_type; typedef T traits_type;
  bool good()const{return st_==0;} bool fail()const{return st_&(badbit|failbit);} bool eof()const{return st_&eofbit;} bool bad()const{return st_&badbit;} operator bool()const{return !fail();} bool operator!()const{return fail();} void clear(iostate s=0){st_=s;} void setstate(iostate s){st_|=s;} iostate rdstate()const{return st_;} void exceptions(iostate){} C fill(C c){return c;} C fill()const{return C(' ');} 
  basic_streambuf<C,T>* rdbuf()const{return nullptr;} template<class X> X* rdbuf(X* x){return x;} C widen(char c)const{return c;} template<class L> void imbue(const L&){} };
template<class C,class T> class basic_ostream : virtual public basic_ios<C,T> { public: basic_string<C>* sink_; 
  basic_ostream():sink_(nullptr){} template<class X> explicit basic_ostream(X*):sink_(nullptr){} virtual ~basic_ostream(){}
  void putS(const char*s,size_t n){ if(sink_) sink_->append(s,n); } void putU(unsigned long v){ if(!sink_) return; char b[32]; size_t n=sym_u64_to_str(b,v); putS(b,n);} void putI(long v){ if(!sink_) return; if(v<0){putS("-",1);putU(0ul-(unsigned long)v);} else putU(v);} void putD(double d){ if(!sink_) return; char b[64]; size_t n=sym_dbl_to_str(b,d,this->prec_); putS(b,n);} 
  basic_ostream& operator<<(int v){putI(v);return *this;} basic_ostream& operator<<(unsigned v){putU(v);return *this;} basic_ostream& operator<<(long v){putI(v);return *this;} basic_ostream& operator<<(unsigned long v){putU(v);return *this;} basic_ostream& operator<<(long long v){putI(v);return *this;} basic_ostream& operator<<(unsigned long long v){putU(v);return *this;} basic_ostream& operator<<(short v){putI(v);return *this;} basic_ostream& operator<<(unsigned short v){putU(v);return *this;} basic_ostream& operator<<(bool v){putI(v);return *this;}
  basic_ostream& operator<<(double v){putD(v);return *this;} basic_ostream& operator<<(float v){putD(v);return *this;} basic_ostream& operator<<(long double v){putD(v);return *this;} basic_ostream& operator<<(const void*){return *this;}
  basic_ostream& operator<<(basic_ostream&(*f)(basic_ostream&)){return f(*this);} basic_ostream& operator<<(ios_base&(*f)(ios_base&)){f(*this);return *this;} basic_ostream& operator<<(basic_ios<C,T>&(*f)(basic_ios<C,T>&)){f(*this);return *this;} 
  basic_ostream& put(C c){putS(&c,1);return *this;} basic_ostream& write(const C*s,streamsize n){putS(s,n);return *this;} basic_ostream& flush(){return *this;} streamoff tellp(){return sink_?sink_->size():0;} basic_ostream& seekp(streamoff){return *this;} };
inline ostream& operator<<(ostream&o,const char*s){ if(o.sink_&&s) o.putS(s,strlen(s)); return o; }
inline ostream& operator<<(ostream&o,char c){ o.putS(&c,1); return o; } inline ostream& operator<<(ostream&o,unsigned char c){ o.putS((char*)&c,1); return o; } inline ostream& operator<<(ostream&o,signed char c){ o.putS((char*)&c,1); return o; }
inline ostream& operator<<(ostream&o,const string&s){ if(o.sink_) o.putS(s.data(),s.size()); return o; }
inline ostream& endl(ostream&o){ o.putS("\n",1); return o; } inline ostream& flush(ostream&o){return o;} inline ostream& ends(ostream&o){return o;}
#define GMF(n,b) inline ios_base& n(ios_base&i){ i.fl_|=ios_base::b; return i; }
GMF(fixed,fixed) GMF(scientific,scientific) GMF(left,left) GMF(right,right) GMF(dec,dec) GMF(hex,hex) GMF(boolalpha,boolalpha) GMF(showpoint,showpoint) GMF(internal,internal) GMF(oct,oct) GMF(showpos,showpos) GMF(uppercase,uppercase)
inline ios_base& noboolalpha(ios_base&i){return i;} inline ios_base& skipws(ios_base&i){return i;} inline ios_base& noskipws(ios_base&i){return i;} 
struct _Setp{streamsize v;}; inline _Setp setprecision(int n){return {n};} struct _Setw{streamsize v;}; inline _Setw setw(int n){return {n};} struct _Setf{char c;}; inline _Setf setfill(char c){return {c};}
inline ostream& operator<<(ostream&o,_Setp p){o.prec_=p.v;return o;} inline ostream& operator<<(ostream&o,_Setw){return o;} inline ostream& operator<<(ostream&o,_Setf){return o;} struct _Setfl{unsigned f;}; inline _Setfl setiosflags(ios_base::fmtflags f){return {f};} inline ostream& operator<<(ostream&o,_Setfl p){o.setf(p.f);return o;}
template<class C,class T> class basic_istream : virtual public basic_ios<C,T> { public: const basic_string<C>* src_; size_t pos_; streamsize gc_;
  basic_istream():src_(nullptr),pos_(0),gc_(0){} template<class X> explicit basic_istream(X*):src_(nullptr),pos_(0),gc_(0){} virtual ~basic_istream(){}
  bool at(){ return src_&&pos_<src_->size(); } void ws(){ while(at()&&isspace_((*src_)[pos_])) pos_++; } static bool isspace_(C c){return c==' '||c=='\n'||c=='\t'||c=='\r';}
  bool token(basic_string<C>&t){ ws(); t.clear(); while(at()&&!isspace_((*src_)[pos_])) t+=(*src_)[pos_++]; if(!at()) this->st_|=ios_base::eofbit; if(t.empty()){this->st_|=ios_base::failbit;return false;} return true; }
  // numbers: longest prefix made of characters valid in a number
  bool num(basic_string<C>&t,bool fl){ ws(); t.clear(); while(at()){ C c=(*src_)[pos_]; if((c>='0'&&c<='9')||((c=='-'||c=='+')&&(t.empty()||(fl&&(t.back()=='e'||t.back()=='E'))))||(fl&&(c=='.'||((c=='e'||c=='E')&&!t.empty())))){t+=c;pos_++;} else break; } if(!at()) this->st_|=ios_base::eofbit; if(t.empty()){this->st_|=ios_base::failbit;return false;} return true; }
  template<class N> basic_istream& getI(N&v){ basic_string<C> t; if(num(t,false)) v=(N)strtol(t.c_str(),nullptr,10); return *this; } template<class N> basic_istream& getD(N&v){ basic_string<C> t; if(num(t,true)) v=(N)strtod(t.c_str(),nullptr); return *this; }
  basic_istream& operator>>(int&v){return getI(v);} basic_istream& operator>>(unsigned&v){return getI(v);} basic_istream& operator>>(long&v){return getI(v);} basic_istream& operator>>(unsigned long&v){return getI(v);} basic_istream& operator>>(long long&v){return getI(v);} basic_istream& operator>>(unsigned long long&v){return getI(v);} basic_istream& operator>>(short&v){return getI(v);} basic_istream& operator>>(unsigned short&v){return getI(v);} basic_istream& operator>>(bool&v){return getI(v);} basic_istream& operator>>(double&v){return getD(v);} basic_istream& operator>>(float&v){return getD(v);}
  basic_istream& operator>>(ios_base&(*f)(ios_base&)){f(*this);return *this;}
  int get(){ if(at()) return (unsigned char)(*src_)[pos_++]; this->st_|=ios_base::eofbit|ios_base::failbit; return -1; } basic_istream& get(C&c){int x=get(); if(x>=0)c=x; return *this;} int peek(){ if(at()) return (unsigned char)(*src_)[pos_]; this->st_|=ios_base::eofbit; return -1; } basic_istream& unget(){if(pos_)pos_--;return *this;} basic_istream& putback(C){return unget();} basic_istream& read(C*p,streamsize n){ for(streamsize i=0;i<n;i++){int c=get(); if(c<0) break; p[i]=c;} return *this; } basic_istream& ignore(streamsize n=1,int d=-1){ for(streamsize i=0;i<n;i++){int c=get(); if(c<0||c==d) break;} return *this; } streamsize gcount()const{return gc_;} streamoff tellg(){return pos_;} basic_istream& seekg(streamoff p){pos_=p;this->st_=0;return *this;} };
inline istream& operator>>(istream&i,string&s){ i.token(s); return i; } inline istream& operator>>(istream&i,char&c){ i.ws(); int x=i.get(); if(x>=0) c=x; return i; }
inline istream& getline(istream&i,string&s,char d='\n'){ s.clear(); if(!i.at()){ i.st_|=ios_base::eofbit|ios_base::failbit; return i; } while(i.at()){ char c=(*i.src_)[i.pos_++]; if(c==d) return i; s+=c; } i.st_|=ios_base::eofbit; return i; }
template<class C,class T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> { public: basic_iostream(){} template<class X> explicit basic_iostream(X*){} };
inline namespace __cxx11 {
template<class C,class T,class A> class basic_ostringstream : public basic_ostream<C,T> { public: basic_string<C> b_; basic_ostringstream(){this->sink_=&b_;} explicit basic_ostringstream(ios_base::openmode){this->sink_=&b_;} explicit basic_ostringstream(const basic_string<C>&s,ios_base::openmode=2):b_(s){this->sink_=&b_;} basic_string<C> str()const{return b_;} void str(const basic_string<C>&s){b_=s;} };
template<class C,class T,class A> class basic_istringstream : public basic_istream<C,T> { public: basic_string<C> b_; basic_istringstream(){this->src_=&b_;} explicit basic_istringstream(const basic_string<C>&s,ios_base::openmode=1):b_(s){this->src_=&b_;} basic_string<C> str()const{return b_;} void str(const basic_string<C>&s){b_=s;this->pos_=0;} };
template<class C,class T,class A> class basic_stringstream : public basic_iostream<C,T> { public: basic_string<C> b_; basic_stringstream(){this->src_=&b_;this->sink_=&b_;} explicit basic_stringstream(const basic_string<C>&s,ios_base::openmode=3):b_(s){this->src_=&b_;this->sink_=&b_;} explicit basic_stringstream(ios_base::openmode){this->src_=&b_;this->sink_=&b_;} basic_string<C> str()const{return b_;} void str(const basic_string<C>&s){b_=s;this->pos_=0;} };
}
inline map<string,string>& gm_files(){ static map<string,string>* m=new map<string,string>; return *m; }
template<class C,class T> class basic_ofstream : public basic_ostream<C,T> { public: basic_string<C> n_,b_; bool o_; basic_ofstream():o_(false){} explicit basic_ofstream(const char*n,ios_base::openmode m=2){open(n,m);} explicit basic_ofstream(const string&n,ios_base::openmode m=2){open(n.c_str(),m);} void open(const char*n,ios_base::openmode=2){n_=n;b_.clear();o_=true;this->sink_=&b_;} void open(const string&n,ios_base::openmode m=2){open(n.c_str(),m);} bool is_open()const{return o_;} void close(){ if(o_) gm_files()[n_]=b_; o_=false; } ~basic_ofstream(){close();} };
template<class C,class T> class basic_ifstream : public basic_istream<C,T> { public: basic_string<C> b_; bool o_; basic_ifstream():o_(false){} explicit basic_ifstream(const char*n,ios_base::openmode m=1){open(n,m);} explicit basic_ifstream(const string&n,ios_base::openmode m=1){open(n.c_str(),m);} void open(const char*n,ios_base::openmode=1){ auto it=gm_files().find(n); o_=it!=gm_files().end(); if(o_){b_=it->second;this->src_=&b_;} else this->st_|=ios_base::failbit; } void open(const string&n,ios_base::openmode m=1){open(n.c_str(),m);} bool is_open()const{return o_;} void close(){o_=false;} };
template<class C,class T> class basic_fstream : public basic_iostream<C,T> { public: bool is_open()const{return false;} void close(){} template<class X> basic_fstream(X&&,ios_base::openmode=3){} basic_fstream(){} };
inline ostream gm_null; 
inline ostream& gm_cout(){ return gm_null; }
inline ostream cout, cerr, clog; inline istream cin;
}
using std::setiosflags;   // found through its argument's type in the real library
