/* command line parser against a reference reading of the documented grammar */
#include "vp.h"
#include "misc/cmdline.h"
#define MAXTOK 5
#define MAXEV 200
#define TEXT 200
static CMDLINE_OPTION* tab; static int nopt;
static struct { uint8_t s; uint8_t flags; int id, has, len; uint8_t l[80]; } o[16];
static char* argv_[MAXTOK + 2]; static char** argvp; static int argc_; static int tlen[MAXTOK + 2];
/* ---- what the callback saw */
static struct { int id, null, len; const char* p; char t[TEXT]; } got[MAXEV]; static int ngot, stop_at, ended; static int stop_rc; static int user;
static int cb(int id, const char* arg, void* ud)
{
    vp_assert(ud == &user, "the user data is passed"); vp_assert(!ended, "nothing is reported after a non-zero result"); vp_assert(ngot < MAXEV, "room");
    got[ngot].id = id; got[ngot].null = arg == NULL; got[ngot].p = arg; got[ngot].len = 0;
    if (arg) { int i = 0; while (vp_concretize(arg[i] != 0)) { vp_assert(i < TEXT - 1, "the text is terminated"); got[ngot].t[i] = arg[i]; i++; } got[ngot].len = i; }
    if (ngot++ == stop_at) { ended = 1; return stop_rc; }
    return 0;
}
/* ---- reference */
static int ne;   /* events so far */
static int T(int c) { return (int)vp_concretize((uint64_t)(c != 0)); }
static int expect(int id, const char* s, int len, int may_cut)   /* s NULL: no argument. returns non-zero when processing must stop */
{
    int i, k = ne++;
    vp_assert(k < ngot, "an event is missing"); 
    vp_assert_x(got[k].id == id, "the event has the right identifier");
    if (s == NULL) { vp_assert(got[k].null, "no argument"); return k == stop_at; }
    vp_assert(!got[k].null, "an argument");
    if (may_cut && got[k].len >= 24) vp_assert(got[k].len <= len, "the name is at most cut"); else vp_assert(got[k].len == len, "exact argument length");
    for (i = 0; i < got[k].len && i < len; i++) vp_assert_x(got[k].t[i] == s[i], "exact argument text");
    return k == stop_at;
}
static int eq(const char* t, int tl, int at, const char* s, int n) { int i, r = 1; if (tl < at + n) return 0; for (i = 0; i < n; i++) r &= t[at + i] == s[i]; return T(r); }
static int reference(void)
{
    int i, k, j, dd = 0;
    for (i = 1; i < argc_; i++) {
        char* t = argv_[i]; int n = tlen[i], done = 0;
        if (dd) { if (expect(CMDLINE_OPTID_NONE, t, n, 0)) return 1; continue; }
        if (n == 1 && eq(t, n, 0, "-", 1)) { if (expect(CMDLINE_OPTID_NONE, t, n, 0)) return 1; continue; }
        if (n == 2 && eq(t, n, 0, "--", 2)) { dd = 1; continue; }
        for (k = 0; k < nopt && !done; k++) {
            int cl = T(o[k].flags & CMDLINE_OPTFLAG_COMPILERLIKE), len = o[k].len; const char* name = (char*)o[k].l;
            if (cl) {
                if (!eq(t, n, 0, name, len)) continue;
                done = 1;
                if (n > len) { if (expect(o[k].id, t + len, n - len, 0)) return 1; }
                else if (i + 1 < argc_) { i++; if (expect(o[k].id, argv_[i], tlen[i], 0)) return 1; }
                else if (expect(CMDLINE_OPTID_MISSINGARG, name, len, 1)) return 1;
            } else if (eq(t, n, 0, "--", 2)) {
                int req, any;
                if (!o[k].has || !eq(t, n, 2, name, len) || (n > 2 + len && !eq(t, n, 2 + len, "=", 1))) continue;
                done = 1; req = T(o[k].flags & CMDLINE_OPTFLAG_REQUIREDARG); any = req || T(o[k].flags & CMDLINE_OPTFLAG_OPTIONALARG);
                if (n == 2 + len) { if (req ? expect(CMDLINE_OPTID_MISSINGARG, t, n, 1) : expect(o[k].id, NULL, 0, 0)) return 1; }
                else if (any) { if (expect(o[k].id, t + len + 3, n - len - 3, 0)) return 1; }
                else if (expect(CMDLINE_OPTID_BOGUSARG, t, 2 + len, 1)) return 1;
            } else if (n > 1 && eq(t, n, 0, "-", 1)) {
                if (!T((o[k].s != 0) & ((uint8_t)t[1] == o[k].s))) continue;
                done = 1;
                if (T(o[k].flags & CMDLINE_OPTFLAG_REQUIREDARG)) {
                    if (n > 2) { if (expect(o[k].id, t + 2, n - 2, 0)) return 1; }
                    else if (i + 1 < argc_) { i++; if (expect(o[k].id, argv_[i], tlen[i], 0)) return 1; }
                    else if (expect(CMDLINE_OPTID_MISSINGARG, t, 2, 0)) return 1;
                } else {
                    if (expect(o[k].id, NULL, 0, 0)) return 1;
                    for (j = 2; j < n; j++) {       /* the rest of the group */
                        int m; char bad[2]; bad[0] = '-'; bad[1] = t[j];
                        for (m = 0; m < nopt; m++) if (!T(o[m].flags & CMDLINE_OPTFLAG_COMPILERLIKE) && T((o[m].s != 0) & ((uint8_t)t[j] == o[m].s))) break;
                        if (m == nopt) { if (expect(CMDLINE_OPTID_UNKNOWN, bad, 2, 0)) return 1; }
                        else if (T(o[m].flags & CMDLINE_OPTFLAG_REQUIREDARG)) { if (expect(CMDLINE_OPTID_MISSINGARG, bad, 2, 0)) return 1; }
                        else if (expect(o[m].id, NULL, 0, 0)) return 1;
                    }
                }
            }
        }
        if (done) continue;
        if (n == 0 || !eq(t, n, 0, "-", 1)) { if (expect(CMDLINE_OPTID_NONE, t, n, 0)) return 1; continue; }
        if (eq(t, n, 0, "--", 2)) { for (j = 2; j < n; j++) if (T(t[j] == '=')) break; if (expect(CMDLINE_OPTID_UNKNOWN, t, j, j < n)) return 1; }   /* the whole token, or the name before '=' */
        else if (expect(CMDLINE_OPTID_UNKNOWN, t, n, 0)) return 1;
    }
    return 0;
}
/* ---- inputs */
static void opt_add(int s, const char* l, int flags) { o[nopt].s = (uint8_t)s; o[nopt].has = l != NULL; o[nopt].len = l ? (int)strlen(l) : 0; if (l) memcpy(o[nopt].l, l, strlen(l)); o[nopt].flags = (uint8_t)flags; nopt++; }
static void ids(void)
{
    int k; for (k = 0; k < nopt; k++) {
        uint32_t id = (uint32_t)vp_u32("id"); vp_assume_x((id != 0) & (id != (uint32_t)CMDLINE_OPTID_UNKNOWN) & (id != (uint32_t)CMDLINE_OPTID_MISSINGARG) & (id != (uint32_t)CMDLINE_OPTID_BOGUSARG)); o[k].id = (int)id; }
}
static void token(const char* s) { int n = (int)strlen(s); char* p = vp_block((size_t)n + 1); memcpy(p, s, (size_t)n + 1); tlen[argc_] = n; argv_[argc_++] = p; }
static void any_token(int max) { int i, n = (int)vp_pick_range("token length", 0, (uint64_t)max); char* p = vp_block((size_t)n + 1); for (i = 0; i < n; i++) { p[i] = (char)vp_u8("token"); vp_assume_x(p[i] != 0); } p[n] = 0; tlen[argc_] = n; argv_[argc_++] = p; }
static void long_token(char* b, int dashes, char fill, int n, const char* tail) { int i = 0; while (dashes--) b[i++] = '-'; while (n--) b[i++] = fill; strcpy(b + i, tail); }
void harness(void)
{
    int i, k, r; CMDLINE_OPTION* t; char** av; char buf[160];
    argv_[argc_] = vp_block(2); strcpy(argv_[argc_], "p"); tlen[argc_++] = 1;
#if MODE == 0          /* arbitrary tables, arbitrary tokens */
    nopt = (int)vp_pick_range("options", OPTLO, OPTHI);
    for (k = 0; k < nopt; k++) {
        o[k].s = vp_u8("shortname"); vp_assume_x(o[k].s != '-'); o[k].flags = (uint8_t)vp_bits("flags", 3);
        o[k].len = (int)vp_pick_range("longname length", 0, NAME); o[k].has = o[k].len > 0;
        if (!o[k].has) vp_assume_x((o[k].flags & CMDLINE_OPTFLAG_COMPILERLIKE) == 0);
        for (i = 0; i < o[k].len; i++) { o[k].l[i] = vp_u8("longname"); vp_assume_x((o[k].l[i] != 0) & (o[k].l[i] != '=')); }
    }
    { int n = (int)vp_pick_range("tokens", TOKLO, TOKHI); for (i = 0; i < n; i++) any_token(i == 0 ? LEN : LEN2); }
#elif MODE == 1        /* a rich table, tokens from a list */
    static const char* const tok[] = { "-a", "-b", "-abc", "-cx", "-ca", "-x", "-aXb", "-", "--", "", "pos", "--foo", "--foo=", "--foo=v=w", "--foobar", "--req", "--req=1", "--opt", "--opt=", "--unk", "--unk=1", "-DX=1", "-D", "-isystem", "-isystemq", "-i", "@file", "@", "--fo", "-aD", "-ac", "-o", "-ob", "---foo", "-a=1", "/W3", "/", "-c" };
    static const int NT = sizeof(tok) / sizeof(tok[0]);
    opt_add('a', NULL, 0); opt_add('b', "bar", 0); opt_add('c', "req", CMDLINE_OPTFLAG_REQUIREDARG); opt_add(0, "foo", vp_pick_range("foo flags", 0, 2)); opt_add('o', "opt", CMDLINE_OPTFLAG_OPTIONALARG); opt_add(0, "foobar", CMDLINE_OPTFLAG_OPTIONALARG | CMDLINE_OPTFLAG_REQUIREDARG);
    if (vp_pick_range("compiler", 0, 1)) { opt_add('X', "-D", CMDLINE_OPTFLAG_COMPILERLIKE); opt_add('b', "-isystem", CMDLINE_OPTFLAG_COMPILERLIKE | CMDLINE_OPTFLAG_OPTIONALARG); opt_add('a', "-i", CMDLINE_OPTFLAG_COMPILERLIKE); if (vp_pick_range("response file", 0, 1)) { opt_add('b', "@", CMDLINE_OPTFLAG_COMPILERLIKE); opt_add(0, "/W", CMDLINE_OPTFLAG_COMPILERLIKE); } }
    { int n = (int)vp_pick_range("tokens", 0, TOKHI); for (i = 0; i < n; i++) token(tok[vp_pick_range("token", 0, (uint64_t)NT - 1)]); }
#else                  /* names around and above the internal limits */
    { int n = (int)vp_pick_range("name length", LENLO, LENHI), m = (int)vp_pick_range("tail", 0, 2), w = (int)vp_pick_range("kind", 0, 4); static char nm[160]; char c = (char)vp_u8("fill"); vp_assume_x((c != 0) & (c != '=') & (c != '-'));
      long_token(nm, 0, 'n', n, ""); opt_add('a', NULL, 0);
      opt_add(0, nm, w == 1 ? CMDLINE_OPTFLAG_REQUIREDARG : w == 2 ? CMDLINE_OPTFLAG_OPTIONALARG : 0); if (w == 3) { nm[0] = '-'; opt_add(0, nm, CMDLINE_OPTFLAG_COMPILERLIKE); nm[0] = 'n'; }
      if (w == 3) { buf[0] = '-'; long_token(buf + 1, 0, 'n', n - 1, m == 0 ? "" : m == 1 ? "=" : "=value"); } else long_token(buf, 2, w == 4 ? 'z' : 'n', n, m == 0 ? "" : m == 1 ? "=" : "=value");
      token(buf); if (w == 4) { for (i = 2; i < 2 + n; i++) argv_[1][i] = c; }
      if (vp_pick_range("more", 0, 1)) token("-a"); }
#endif
    ids(); tab = t = vp_block(sizeof(CMDLINE_OPTION) * (size_t)(nopt + 1));
    for (k = 0; k < nopt; k++) { t[k].shortname = (char)o[k].s; t[k].id = o[k].id; t[k].flags = o[k].flags; if (o[k].has) { char* p = vp_block((size_t)o[k].len + 1); memcpy(p, o[k].l, (size_t)o[k].len); p[o[k].len] = 0; t[k].longname = p; } else t[k].longname = NULL; }
    t[nopt].id = 0;
    av = argvp = vp_block(sizeof(char*) * (size_t)(argc_ + 1)); for (i = 0; i < argc_; i++) av[i] = argv_[i]; av[argc_] = NULL;
    stop_rc = (int)vp_u32("callback result"); vp_assume_x(stop_rc != 0); stop_at = STOP ? (int)vp_pick_range("stop", 0, STOP) - 1 : -1;
    r = cmdline_read(tab, argc_, argvp, cb, &user);
    k = reference(); vp_assert(ngot == ne, "an event too many");
    vp_assert_x(r == (k ? stop_rc : 0), "the result is zero, or that of the callback");
    for (i = 0; i < argc_; i++) vp_assert(av[i] == argv_[i], "argv is not modified");
    vp_witness("end");
}
