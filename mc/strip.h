// Undo the mark-up of every rendering: what remains must be the characters the reader sees.
#pragma once
#include "xq.h"
namespace strip {
using namespace xq;
static string strip_ansi(const string &t)
{
    string o; for (size_t i=0;i<t.size();) {
        if (t[i]==27) { size_t j=i+1; if (t[j]!='[') mc::fail("bad terminal escape"); j++; while (j<t.size()&&(isdigit((unsigned char)t[j])||t[j]==';')) j++; if (t[j]!='m') mc::fail("bad terminal escape %s",mc::esc(t.substr(i,20)).c_str()); i=j+1; }
        else o+=t[i++];
    }
    return o;
}
static string strip_html(const string &t)
{
    string o; vector<string> open; for (size_t i=0;i<t.size();) {
        if (t[i]=='<') {
            size_t e=t.find('>',i); if (e==string::npos) mc::fail("tag not closed %s",mc::esc(t.substr(i)).c_str());
            string g=t.substr(i+1,e-i-1); i=e+1;
            if (g[0]=='/') { if (open.empty()||open.back()!=g.substr(1)) mc::fail("markup </%s> does not match",g.substr(1).c_str()); open.pop_back(); }
            else open.push_back(g.substr(0,g.find(' ')));
        } else if (t[i]=='&') { size_t e=t.find(';',i); string n=t.substr(i+1,e==string::npos?0:e-i-1); if (n=="amp") o+='&'; else if (n=="lt") o+='<'; else if (n=="gt") o+='>'; else if (n=="quot") o+='"'; else if (n=="apos"||n=="#39") o+='\''; else mc::fail("bad html entity %s",mc::esc(t.substr(i,10)).c_str()); i=e+1; }
        else if (t[i]=='>') mc::fail("> not escaped"); else o+=t[i++];
    }
    if (open.size()) mc::fail("markup <%s> is never closed",open.back().c_str());
    return o;
}
static string strip_tex(const string &t)
{
    static const char *ESC[][2]={{"\\backslash;","\\"},{"\\&","&"},{"\\#","#"},{"\\{","{"},{"\\}","}"},{"\\_","_"},{"{'}","'"},{"\\$","$"},{"\\%","%"},{"\\^{}","^"},{"\\~{}","~"}};
    string o; int depth=0; for (size_t i=0;i<t.size();) {
        bool hit=false; for (auto &e:ESC) if (t.compare(i,strlen(e[0]),e[0])==0) { o+=e[1]; i+=strlen(e[0]); hit=true; break; }
        if (hit) continue;
        if (t.compare(i,11,"\\linebreak\n")==0) { o+='\n'; i+=11; continue; }
        if (t.compare(i,6,"\\xmqI ")==0) { o+=' '; i+=6; continue; }
        if (t.compare(i,4,"\\xmq")==0) { size_t e=t.find('{',i); if (e==string::npos||e-i>8) mc::fail("bad tex command %s",mc::esc(t.substr(i,12)).c_str()); depth++; i=e+1; continue; }
        if (t[i]=='}') { if (!depth) mc::fail("tex group closed twice"); depth--; i++; continue; }
        if (strchr("\\{&#_$%^~",t[i])) mc::fail("tex character not escaped: %s",mc::esc(t.substr(i,12)).c_str());
        o+=t[i++];
    }
    if (depth) mc::fail("tex group never closed");
    return o;
}
static string unwrap(const string &t, const string &pre, const string &post, const char *what)
{
    if (t.size()<pre.size()+post.size()||t.compare(0,pre.size(),pre)||t.compare(t.size()-post.size(),post.size(),post)) mc::fail("%s rendering is not wrapped as documented: %s",what,mc::esc(t).c_str());
    return t.substr(pre.size(),t.size()-pre.size()-post.size());
}
}
using namespace strip;
