#include "json.h"
#include <cstdlib>
#include <cstdio>
#include <cstring>
static void qs(std::string& out,const std::string& s)
{
    out+='"';
    for(size_t n=0;n<s.size();n++){ unsigned char c=s[n]; if(c=='"'||c=='\\'){out+='\\';out+=c;} else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);out+=b;} else out+=c; }
    out+='"';
}
void J::dump(std::string& out) const
{
    switch(t){
    case NUL: out+="null"; break;
    case BOOL: out+=i?"true":"false"; break;
    case INT: { char b[32]; snprintf(b,32,"%lld",(long long)i); out+=b; } break;
    case STR: qs(out,s); break;
    case ARR: out+='['; for(size_t n=0;n<a.size();n++){ if(n) out+=','; a[n].dump(out);} out+=']'; break;
    case OBJ: out+='{'; for(size_t n=0;n<o.size();n++){ if(n) out+=','; qs(out,o[n].first); out+=':'; o[n].second.dump(out);} out+='}'; break;
    }
}
static void ws(const char*& p){ while(*p==' '||*p=='\n'||*p=='\t'||*p=='\r') ++p; }
static std::string ps(const char*& p)
{
    std::string r; ++p;
    while(*p&&*p!='"'){ if(*p=='\\'){ ++p; if(*p=='u'){ char h[5]={p[1],p[2],p[3],p[4],0}; r+=(char)strtol(h,0,16); p+=5; } else { char c=*p++; r+= c=='n'?'\n':c=='t'?'\t':c=='r'?'\r':c; } } else r+=*p++; }
    ++p; return r;
}
J J::parse(const char*& p)
{
    ws(p); J j;
    if(*p=='{'){ j.t=OBJ; ++p; ws(p); if(*p=='}'){++p;return j;} for(;;){ ws(p); std::string k=ps(p); ws(p); ++p; j.o.push_back(std::make_pair(k,parse(p))); ws(p); if(*p==','){++p;continue;} ++p; break; } }
    else if(*p=='['){ j.t=ARR; ++p; ws(p); if(*p==']'){++p;return j;} for(;;){ j.a.push_back(parse(p)); ws(p); if(*p==','){++p;continue;} ++p; break; } }
    else if(*p=='"'){ j.t=STR; j.s=ps(p); }
    else if(!strncmp(p,"true",4)){ j.t=BOOL;j.i=1;p+=4; }
    else if(!strncmp(p,"false",5)){ j.t=BOOL;j.i=0;p+=5; }
    else if(!strncmp(p,"null",4)){ p+=4; }
    else { char* e; j.t=INT; j.i=strtoll(p,&e,10); if(e==p) throw std::logic_error("driver: bad json"); p=e; }
    return j;
}
