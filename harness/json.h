// Minimal JSON value used by the conformance driver (reader and writer).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <stdint.h>
#include <stdexcept>
struct J
{
    enum T { NUL, BOOL, INT, STR, ARR, OBJ } t;
    int64_t i; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J> > o;
    J():t(NUL),i(0){}
    J(int v):t(INT),i(v){} J(unsigned v):t(INT),i(v){} J(long v):t(INT),i(v){} J(unsigned long v):t(INT),i(static_cast<int64_t>(v)){}
    J(long long v):t(INT),i(v){} J(unsigned long long v):t(INT),i(static_cast<int64_t>(v)){}
    J(bool v):t(BOOL),i(v){}
    J(const char* v):t(STR),i(0),s(v){} J(const std::string& v):t(STR),i(0),s(v){}
    static J arr(){ J j; j.t=ARR; return j; }
    static J obj(){ J j; j.t=OBJ; return j; }
    J& push(const J& v){ if(t==NUL) t=ARR; a.push_back(v); return *this; }
    J& set(const std::string& k,const J& v){ if(t==NUL) t=OBJ; for(size_t n=0;n<o.size();n++) if(o[n].first==k){o[n].second=v;return *this;} o.push_back(std::make_pair(k,v)); return *this; }
    const J* find(const std::string& k) const { for(size_t n=0;n<o.size();n++) if(o[n].first==k) return &o[n].second; return 0; }
    bool has(const std::string& k) const { return find(k)!=0; }
    const J& operator[](const std::string& k) const { const J* p=find(k); if(!p) throw std::logic_error("driver: missing arg "+k); return *p; }
    int64_t n(const std::string& k,int64_t d) const { const J* p=find(k); return p?p->num():d; }
    int64_t n(const std::string& k) const { return (*this)[k].num(); }
    bool b(const std::string& k,bool d) const { const J* p=find(k); return p?p->i!=0:d; }
    std::string str(const std::string& k,const std::string& d="") const { const J* p=find(k); return p?p->s:d; }
    // an integer, or an array of little-endian bytes
    int64_t num() const { if(t==ARR){ uint64_t v=0; for(size_t n=a.size();n>0;--n) v=(v<<8)|static_cast<uint8_t>(a[n-1].i); return static_cast<int64_t>(v);} return i; }
    // array of bytes
    std::string bytes() const { std::string r; r.reserve(a.size()); for(size_t n=0;n<a.size();n++) r.push_back(static_cast<char>(a[n].i)); return r; }
    void dump(std::string& out) const;
    static J parse(const char*& p);
};
