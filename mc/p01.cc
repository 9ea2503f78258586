// P01: XMQ parsing accepts exactly the grammar, builds the denoted tree and reports the offending token.
#include "xmqspace.h"
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

static bool position(const string &msg, size_t &l, size_t &c, string &rest)
{   // the last source:line:col: error: ... line
    size_t p=msg.rfind(": error: "); if (p==string::npos) return false;
    size_t b=msg.rfind(':',p-1); if (b==string::npos||b==0) return false; size_t a=msg.rfind(':',b-1); if (a==string::npos) return false;
    l=strtoul(msg.c_str()+a+1,NULL,10); c=strtoul(msg.c_str()+b+1,NULL,10); rest=msg.substr(p+9); return true;
}
static void check(const string &s, const char *implicit)
{
    XMQContentType ct=xmqDetectContentType(s.data(),s.data()+s.size());
    if (ct!=XMQ_CONTENT_XMQ) {   // json, xml, html: not parsed as xmq at all
        mc::count(3);
        Doc d; mc::Exact e(s); if (xmqParseBuffer(d.d,e.start,e.stop,implicit,0)) fail("content detected as %d accepted as xmq",ct);
        if (xmqDocErrno(d.d)!=XMQ_ERROR_NOT_XMQ) fail("error %d for content that is not xmq",xmqDocErrno(d.d));
        return;
    }
    ref::Result r=ref::parse(s,implicit?implicit:"");
    Doc d; mc::Exact e(s);
    bool ok=xmqParseBuffer(d.d,e.start,e.stop,implicit,0);
    int en=xmqDocErrno(d.d); const char *m=xmqDocError(d.d);
    if (r.unspec) { mc::count(2); if (ok!=r.ok&&r.ok) fail("rejected (%d %s)",en,m?m:""); return; }
    if (ok!=r.ok) fail("%s, but the grammar says %s%s",ok?"accepted":("rejected: "+string(m?m:"")).c_str(),r.ok?"valid":"invalid: ",r.ok?"":(string(xmqParseErrorToString((XMQParseError)r.nr))+" at "+std::to_string(r.line)+":"+std::to_string(r.col)).c_str());
    if (ok) {
        mc::count(0);
        if (en!=0) fail("accepted with error number %d",en);
        string got=dump(d); mc::outcome(got);
        if (got!=r.tree) fail("wrong tree\n  want: %s\n  got:  %s",r.tree.c_str(),got.c_str());
    } else {
        mc::count(1); mc::outcome(((uint64_t)r.nr<<32)|(r.line<<16)|r.col);
        if (en!=r.nr) fail("error %d (%s), want %d (%s)",en,m?m:"",r.nr,xmqParseErrorToString((XMQParseError)r.nr));
        if (!m||!*m) fail("no error message");
        size_t l,c; string rest; if (!position(m,l,c,rest)) fail("message without position: %s",m);
        if (!r.posfree&&(l!=r.line||c!=r.col)) fail("error reported at %zu:%zu, want %zu:%zu: %s",l,c,r.line,r.col,m);
        if (rest.compare(0,strlen(xmqParseErrorToString((XMQParseError)r.nr)),xmqParseErrorToString((XMQParseError)r.nr))!=0) fail("message does not name the error: %s",m);
        if (!r.posfree&&r.at<s.size()) {   // the offending line is shown with a marker below the token
            size_t a=r.at; while (a>0&&s[a-1]!='\n') a--; size_t b=s.find('\n',r.at); if (b==string::npos) b=s.size();
            string line=s.substr(a,b-a);
            if (line.size()<500&&rest.find("\n"+line+"\n")==string::npos) fail("message does not show the line %s: %s",q(line).c_str(),m);
        }
    }
}
int main(int c, char **v)
{
    quiet(); mc::counter_names[0]="accepted"; mc::counter_names[1]="rejected"; mc::counter_names[2]="unspecified"; mc::counter_names[3]="not xmq";
    space::check=check; return mc::main_(c,v,"P01",space::phases);
}
