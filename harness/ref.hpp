// Reference reading of RFC 3986, written from the RFC and independent of the
// library: split into components first (appendix B), then check each one.
#ifndef REF_HPP
#define REF_HPP
namespace ref {
typedef char const* cp;
typedef unsigned char uc;
static inline bool alpha(char c) { uc x = (uc)c; return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); }
static inline bool digit(char c) { return c >= '0' && c <= '9'; }
static inline bool hex(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static inline bool unreserved(char c) { return alpha(c) || digit(c) || c == '-' || c == '.' || c == '_' || c == '~'; }
static inline bool sub_delim(char c)
{ return c == '!' || c == '$' || c == '&' || c == '\'' || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == ';' || c == '='; }
enum { REG = 0, COLON = 1, AT = 2, SLASH = 4, QMARK = 8 };
// 1 if c may stand literally in a component that additionally allows `extra`
struct Cls { uc t[256]; };
static inline bool lit(char c, int extra)
{
    return unreserved(c) || sub_delim(c) || ((extra & COLON) && c == ':') || ((extra & AT) && c == '@') ||
        ((extra & SLASH) && c == '/') || ((extra & QMARK) && c == '?');
}
static inline uc hexval(char c) { return (uc)(digit(c) ? c - '0' : (c | 32) - 'a' + 10); }
// every character allowed, every '%' followed by two hex digits
static inline bool chars(cp p, cp e, int extra)
{
    while(p != e)
    {
        if(*p == '%')
        {
            if(e - p < 3) return false;
            if(! hex(p[1])) return false;
            if(! hex(p[2])) return false;
            p += 3;
        }
        else { if(! lit(*p, extra)) return false; ++p; }
    }
    return true;
}
static inline cp find(cp p, cp e, char c) { while(p != e && *p != c) ++p; return p; }

// dec-octet; returns the end or null
static inline cp octet(cp p, cp e)
{
    if(p == e || ! digit(*p)) return nullptr;
    if(*p == '0') return p + 1;
    unsigned v = (unsigned)(*p - '0'); ++p;
    if(p != e && digit(*p)) { v = v * 10 + (unsigned)(*p - '0'); ++p; if(p != e && digit(*p)) { v = v * 10 + (unsigned)(*p - '0'); ++p; if(p != e && digit(*p)) return nullptr; } }
    return v <= 255 ? p : nullptr;
}
static inline bool ipv4(cp p, cp e)
{
    for(int i = 0; i < 4; ++i)
    {
        if(i) { if(p == e || *p != '.') return false; ++p; }
        p = octet(p, e);
        if(! p) return false;
    }
    return p == e;
}
// IPv6address of RFC 3986: eight 16 bit groups, one "::" may stand for one or
// more of them, the last two may be written as an IPv4 address
static inline bool ipv6(cp p, cp e)
{
    int groups = 0; bool gap = false;
    if(p == e) return false;
    if(*p == ':') { if(e - p < 2 || p[1] != ':') return false; gap = true; p += 2; }
    for(;;)
    {
        if(p == e) { if(! (gap && (groups == 0 || p[-1] == ':'))) return false; break; }   // only directly after "::"
        // one group: an IPv4 tail or 1..4 hex digits
        cp q = p; while(q != e && q - p < 4 && hex(*q)) ++q;
        if(q == p) return false;
        if(q != e && *q == '.') { if(! ipv4(p, e)) return false; groups += 2; p = e; break; }
        if(groups > 7) return false;
        ++groups; p = q;
        if(p == e) break;
        if(*p != ':') return false;
        ++p;
        if(p != e && *p == ':') { if(gap) return false; gap = true; ++p; if(p == e) break; continue; }
        if(p == e) return false;            // trailing single ':'
    }
    return gap ? groups <= 7 : groups == 8;
}

struct url
{
    cp b, e;                     // whole text
    cp scheme_e;                 // end of scheme; null when there is none
    bool auth;                   // authority present
    cp auth_b, path_b;           // authority = [auth_b, path_b)
    bool userinfo, pass;         // "@" present, ":" in the userinfo present
    cp user_e, ui_e;             // user = [auth_b, user_e), userinfo = [auth_b, ui_e)
    cp host_b, host_e;
    bool port;                   // ":" present
    cp port_b;                   // port = [port_b, path_b)
    cp path_e;
    bool query; cp query_e;      // query = (path_e + 1, query_e)
    bool frag;                   // fragment = (query_e + 1, e)
    int host;                    // 0 none, 1 name, 2 ipv4, 3 ipv6
};
// authority without the "//"
static inline bool authority(url& r, cp p, cp e)
{
    r.auth = true; r.auth_b = p; r.path_b = e;
    cp at = find(p, e, '@');
    r.userinfo = at != e; r.pass = false; r.user_e = r.ui_e = p;
    if(r.userinfo)
    {
        r.ui_e = at; r.user_e = find(p, at, ':'); r.pass = r.user_e != at;
        if(! chars(p, at, COLON)) return false;
        p = at + 1;
    }
    r.host_b = p;
    if(p != e && *p == '[')
    {
        cp c = find(p, e, ']');
        if(c == e) return false;
        if(! ipv6(p + 1, c)) return false;
        r.host = 3; r.host_e = c + 1;
        if(r.host_e != e && *r.host_e != ':') return false;
    }
    else
    {
        r.host_e = find(p, e, ':');
        if(! chars(p, r.host_e, REG)) return false;
        r.host = p == r.host_e ? 0 : ipv4(p, r.host_e) ? 2 : 1;
    }
    r.port = r.host_e != e;
    r.port_b = r.port ? r.host_e + 1 : e;
    for(cp q = r.port_b; q != e; ++q) if(! digit(*q)) return false;
    return true;
}
static inline bool parse(url& r, cp b, cp e)
{
    r.b = b; r.e = e; r.scheme_e = nullptr; r.auth = false; r.userinfo = r.pass = r.port = false; r.host = 0;
    cp p = b;
    while(p != e && *p != ':' && *p != '/' && *p != '?' && *p != '#') ++p;
    if(p != e && *p == ':')
    {
        if(p == b || ! alpha(*b)) return false;
        for(cp q = b + 1; q != p; ++q) if(! (alpha(*q) || digit(*q) || *q == '+' || *q == '-' || *q == '.')) return false;
        r.scheme_e = p; ++p;
    }
    else p = b;
    r.auth_b = r.user_e = r.ui_e = r.host_b = r.host_e = r.port_b = r.path_b = p;
    if(e - p >= 2 && p[0] == '/' && p[1] == '/')
    {
        cp q = p + 2; while(q != e && *q != '/' && *q != '?' && *q != '#') ++q;
        if(! authority(r, p + 2, q)) return false;
        p = q;
    }
    r.path_b = p;
    while(p != e && *p != '?' && *p != '#') ++p;
    r.path_e = p;
    if(! chars(r.path_b, p, COLON | AT | SLASH)) return false;
    r.query = p != e && *p == '?';
    if(r.query) { ++p; cp q = find(p, e, '#'); if(! chars(p, q, COLON | AT | SLASH | QMARK)) return false; p = q; }
    r.query_e = p;
    r.frag = p != e;
    if(r.frag) { if(! chars(p + 1, e, COLON | AT | SLASH | QMARK)) return false; }
    return true;
}
}
#endif
