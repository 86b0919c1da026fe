// Runs the real main() of spb-protoc (linked under another name), each time in a forked process, on many schema texts, next to the parser of
// Google protobuf. Frames on stdin: u32 flags, u32 length, text. flags: 1 = also the canonical text of the same schema, 2 = run twice,
// 4 = with the parser of protobuf, 8 = count and fail system calls, one run for each. The text is x.proto, or \1name\2text... for several files (the first one is compiled).
// One line per frame: exit|header|source|same twice|code|code in any order|meaning|exit for canonical|its code|message|error of protobuf|why|faults
#include <google/protobuf/compiler/importer.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <csignal>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern int spb_protoc_main(int argc, char **argv);
namespace gp = google::protobuf;
static std::string dir;
static FILE *answers;

static std::string slurp(const std::string &p, bool &there)
{
    std::string s; there = false; if (FILE *f = fopen(p.c_str(), "rb")) { there = true; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s;
}
// C++ text without comments and with single spaces
static std::string tokens(const std::string &unspliced)
{
    std::string s, o; // a line which ends in a backslash (and white space) goes on in the next line
    for (size_t i = 0; i < unspliced.size(); ++i) {
        if (unspliced[i] == '\\') { auto k = i + 1; while (k < unspliced.size() && strchr(" \t\r\v\f", unspliced[k])) ++k; if (k < unspliced.size() && unspliced[k] == '\n') { i = k; continue; } }
        s += unspliced[i];
    } bool sp = false;
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') ++i; sp = true; continue; }
        if (s.compare(i, 2, "/*") == 0) { auto e = s.find("*/", i + 2); i = e == s.npos ? s.size() : e + 2; sp = true; continue; }
        if (s[i] == '"' || s[i] == '\'') { char q = s[i]; if (sp && !o.empty()) o += ' '; sp = false; o += s[i++]; while (i < s.size() && s[i] != q) { if (s[i] == '\\' && i + 1 < s.size()) o += s[i++]; o += s[i++]; } if (i < s.size()) o += s[i++]; continue; }
        if (isspace((unsigned char)s[i])) { sp = true; ++i; continue; }
        if (sp && !o.empty()) o += ' ';
        sp = false; o += s[i++];
    }
    return o;
}
// the same statements in any order, names without qualification (a type may be written in several ways)
static std::string sorted(const std::string &with_bases)
{
    std::string code; // integers in any base are one
    for (size_t i = 0; i < with_bases.size();) {
        auto c = (unsigned char)with_bases[i];
        if (isdigit(c)) { size_t k = i; while (k < with_bases.size() && (isalnum((unsigned char)with_bases[k]) || with_bases[k] == '.')) ++k; auto t = with_bases.substr(i, k - i); char *e; errno = 0; auto v = strtoull(t.c_str(), &e, 0); std::string suf = e; code += !errno && suf.find_first_not_of("uUlL") == suf.npos ? std::to_string(v) + suf : t; i = k; }
        else if (isalpha(c) || c == '_') { while (i < with_bases.size() && (isalnum((unsigned char)with_bases[i]) || with_bases[i] == '_')) code += with_bases[i++]; }
        else if (c == '"') { code += with_bases[i++]; while (i < with_bases.size() && with_bases[i] != '"') {
            unsigned o; if (sscanf(with_bases.c_str() + i, "\\%3o", &o) == 1 && o > 127) { code += char(o); i += 4; continue; }
            if (with_bases[i] == '\\' && i + 1 < with_bases.size()) code += with_bases[i++]; code += with_bases[i++]; } }
        else code += with_bases[i++];
    }
    std::string s; for (size_t i = 0; i < code.size(); ++i) { if (code.compare(i, 2, "::") == 0) { while (!s.empty() && (isalnum((unsigned char)s.back()) || s.back() == '_')) s.pop_back(); ++i; continue; } s += code[i]; }
    std::vector<std::string> v; size_t b = 0;
    for (size_t i = 0; i < s.size(); ++i) if (strchr(";{},", s[i])) { size_t k = b; while (k < i && s[k] == ' ') ++k; v.push_back(s.substr(k, i - k)); b = i + 1; }
    // which side of a cycle is a pointer depends on the order
    if (code.find("unique_ptr<") != code.npos) return "";
    // forward declarations depend on the order
    std::sort(v.begin(), v.end()); std::string o; for (auto &x : v) if (x.rfind("struct ", 0) != 0) (o += x) += '\n';
    return o;
}
// what the schema means for C++; options without a meaning for C++ left out. ordered: also by the order of declarations
static void mean(const gp::EnumDescriptor *e, std::vector<std::string> &out)
{
    std::vector<std::string> v; for (int i = 0; i < e->value_count(); ++i) v.push_back(e->value(i)->name() + "=" + std::to_string(e->value(i)->number()));
    std::sort(v.begin(), v.end()); std::string o = "enum " + e->full_name(); for (auto &x : v) o += ' ' + x; out.push_back(o);
}
static void mean(const gp::Descriptor *m, std::vector<std::string> &out)
{
    if (m->options().map_entry()) return;
    out.push_back("message " + m->full_name());
    for (int i = 0; i < m->enum_type_count(); ++i) mean(m->enum_type(i), out);
    for (int i = 0; i < m->nested_type_count(); ++i) mean(m->nested_type(i), out);
    for (int i = 0; i < m->field_count(); ++i) {
        auto *f = m->field(i); gp::FieldDescriptorProto p; f->CopyTo(&p);
        std::string o = "field " + f->full_name() + " " + std::to_string(f->number());
        auto type = [](const gp::FieldDescriptor *x) { return x->message_type() ? x->message_type()->full_name() : x->enum_type() ? x->enum_type()->full_name() : std::string(x->type_name()); };
        if (f->is_map()) o += " map " + type(f->message_type()->map_key()) + " " + type(f->message_type()->map_value());
        else {
            o += (f->is_repeated() ? (f->is_packed() ? " packed " : " repeated ") : f->is_required() ? " required " : f->real_containing_oneof() ? " oneof " + f->real_containing_oneof()->name() + " " : " optional ") + type(f);
            if (f->has_default_value() && !f->real_containing_oneof() && p.default_value() != "") o += " default " + p.default_value();
        }
        if (p.has_json_name() && p.json_name() != "" && (p.json_name() != f->name() || f->name().find('_') != std::string::npos)) o += " json " + p.json_name();
        if (f->options().deprecated() && !f->real_containing_oneof() && !f->is_map()) o += " deprecated";
        out.push_back(o);
    }
}
static std::string mean(const gp::FileDescriptor *f)
{
    std::vector<std::string> v; for (int i = 0; i < f->enum_type_count(); ++i) mean(f->enum_type(i), v);
    for (int i = 0; i < f->message_type_count(); ++i) mean(f->message_type(i), v);
    for (int i = 0; i < f->dependency_count(); ++i) v.push_back("import " + f->dependency(i)->name());
    v.push_back("package " + f->package()); std::sort(v.begin(), v.end()); std::string o; for (auto &x : v) (o += x) += '\n'; return o;
}
static uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
struct Run { int rc = -1, calls = 0, failed = 0; bool h = false, cc = false; std::string header, source, message; };
struct Shared { int calls, fail_at, failed; };
static Shared *shared; static bool in_child;
static bool fault() { if (!in_child || !shared) return false; int n = ++shared->calls; if (n == shared->fail_at) { shared->failed = 1; return true; } return false; }
static bool is_out(const char *p) { return strstr(p, "/out/") != nullptr; }
extern "C" {
typedef FILE *(*fopen_t)(const char *, const char *); typedef ssize_t (*write_t)(int, const void *, size_t); typedef ssize_t (*writev_t)(int, const struct iovec *, int); typedef int (*fclose_t)(FILE *);
FILE *fopen(const char *p, const char *m) { static auto f = (fopen_t)dlsym(RTLD_NEXT, "fopen"); if (in_child && (is_out(p) || *m == 'w') && fault()) { errno = EACCES; return nullptr; } return f(p, m); }
FILE *fopen64(const char *p, const char *m) { static auto f = (fopen_t)dlsym(RTLD_NEXT, "fopen64"); if (in_child && (is_out(p) || *m == 'w') && fault()) { errno = EACCES; return nullptr; } return f(p, m); }
ssize_t write(int d, const void *p, size_t n) { static auto f = (write_t)dlsym(RTLD_NEXT, "write"); if (in_child && d > 2 && fault()) { errno = ENOSPC; return -1; } return f(d, p, n); }
ssize_t writev(int d, const struct iovec *v, int n) { static auto f = (writev_t)dlsym(RTLD_NEXT, "writev"); if (in_child && d > 2 && fault()) { errno = ENOSPC; return -1; } return f(d, v, n); }
int fclose(FILE *h) { static auto f = (fclose_t)dlsym(RTLD_NEXT, "fclose"); bool w = in_child && (fcntl(fileno(h), F_GETFL) & O_ACCMODE) != O_RDONLY; bool bad = w && fault(); int r = f(h); if (bad) { errno = EIO; return EOF; } return r; }
}
typedef std::vector<std::pair<std::string, std::string>> Texts;
static Texts texts_of(const std::string &s)
{
    Texts t; if (s.empty() || s[0] != 1) { t.push_back({"x.proto", s}); return t; }
    for (size_t i = 0; i < s.size() && s[i] == 1;) { auto m = s.find('\2', i), e = s.find('\1', m); if (e == s.npos) e = s.size(); t.push_back({s.substr(i + 1, m - i - 1), s.substr(m + 1, e - m - 1)}); i = e; }
    return t;
}
static void put(const std::string &n, const std::string &text)
{
    for (size_t i = 0; (i = n.find('/', i)) != n.npos; ++i) mkdir((dir + "/" + n.substr(0, i)).c_str(), 0700);
    if (FILE *f = fopen((dir + "/" + n).c_str(), "wb")) { fwrite(text.data(), 1, text.size(), f); fclose(f); } else abort();
}
static Run run_spb(const std::string &name, int fail_at = 0)
{
    Run r; auto base = dir + "/out/" + name.substr(0, name.size() - 6), oh = base + ".pb.h", oc = base + ".pb.cc";
    unlink(oh.c_str()); unlink(oc.c_str());
    fflush(answers); shared->calls = 0; shared->fail_at = fail_at; shared->failed = 0;
    pid_t pid = fork(); if (pid < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
    if (pid == 0) {
        struct rlimit l{20, 20}; setrlimit(RLIMIT_CPU, &l); l = {0, 0}; setrlimit(RLIMIT_CORE, &l); l = {64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &l); alarm(300);
        int cap = open((dir + "/msg").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(cap, 1); dup2(cap, 2); close(cap);
        std::vector<std::string> a{"spb-protoc", "-I", dir, "-I", dir + "/inc", "--cpp_out=" + dir + "/out", dir + "/" + name}; std::vector<char *> v; for (auto &x : a) v.push_back(x.data()); v.push_back(nullptr);
        in_child = true; int rc = spb_protoc_main(int(a.size()), v.data()); in_child = false;
        std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); _exit(rc);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) abort();
    r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); r.calls = shared->calls; r.failed = shared->failed;
    bool t; r.message = slurp(dir + "/msg", t); r.header = slurp(oh, r.h); r.source = slurp(oc, r.cc);
    return r;
}
// the canonical text writes types as .a.b.T; the compiler under test does not read the leading dot
static std::string undot(const std::string &s)
{
    std::string o; char q = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (q && c == '\\' && i + 3 < s.size() && (s[i + 1] == '2' || s[i + 1] == '3')) { o += char(std::stoi(s.substr(i + 1, 3), nullptr, 8)); i += 3; continue; }
        if (q) { if (c == '\\' && i + 1 < s.size()) o += s[i++]; else if (c == q) q = 0; }
        else if (c == '"' || c == '\'') q = c;
        else if (c == '.' && i && strchr(" <(,", s[i - 1]) && i + 1 < s.size() && (isalpha((unsigned char)s[i + 1]) || s[i + 1] == '_')) continue;
        o += s[i];
    }
    return o;
}
struct Errors : gp::compiler::MultiFileErrorCollector {
    std::string first; void AddError(const std::string &, int line, int col, const std::string &m) override { if (first.empty()) first = std::to_string(line + 1) + ":" + std::to_string(col + 1) + " " + m; }
};
struct Tree : gp::compiler::SourceTree {
    std::string name, text; gp::compiler::DiskSourceTree disk;
    gp::io::ZeroCopyInputStream *Open(const std::string &n) override { if (n == name) return new gp::io::ArrayInputStream(text.data(), int(text.size())); return disk.Open(n); }
};
static std::string clean(std::string s) { for (auto &c : s) if ((unsigned char)c < 32 || c == '|') c = ' '; return s.substr(0, 400); }
int main(int argc, char **argv)
{
    dir = argv[1]; answers = fdopen(dup(1), "w"); mkdir((dir + "/out").c_str(), 0700); signal(SIGPIPE, SIG_IGN);
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    (void)argc;
    for (uint32_t hd[2]; fread(hd, 4, 2, stdin) == 2;) {
        std::string frame(hd[1], '\0'); if (fread(frame.data(), 1, frame.size(), stdin) != frame.size()) return 3;
        auto files = texts_of(frame); auto name = files[0].first; for (auto &f : files) put(f.first, f.second);
        auto r = run_spb(name); bool same = true; std::string faults = "-";
        if (hd[0] & 2) { auto q = run_spb(name); same = q.rc == r.rc && q.h == r.h && q.cc == r.cc && q.header == r.header && q.source == r.source && q.message == r.message; }
        if (hd[0] & 8) {
            faults = std::to_string(r.calls);
            for (int k = 1; k <= r.calls; ++k) { auto q = run_spb(name, k); if (q.failed && (q.rc == 0 || q.rc > 1 || q.message.empty())) faults += " call " + std::to_string(k) + " exit " + std::to_string(q.rc); }
        }
        std::string gerr = "-", canon, why; int crc = -1; uint64_t meaning = 0, sig = 0, csig = 0;
        if (hd[0] & 4) {
            Tree t; t.name = name; t.text = files[0].second; t.disk.MapPath("", dir); t.disk.MapPath("", dir + "/inc"); Errors e; gp::compiler::Importer imp(&t, &e); auto *f = imp.Import(name);
            gerr = f && e.first.empty() ? "" : e.first.empty() ? "error" : e.first;
            if (f && e.first.empty() && r.rc == 0) {
                auto m = mean(f); meaning = fnv(m); sig = fnv(sorted(tokens(r.header)), fnv(sorted(tokens(r.source))));
                if (hd[0] & 1) {
                    canon = undot(f->DebugString()); put(name, canon); auto q = run_spb(name); crc = q.rc; csig = fnv(sorted(tokens(q.header)), fnv(sorted(tokens(q.source))));
                    if (q.rc) why = q.message;
                    else if (csig != sig) { auto a = sorted(tokens(r.header)) + sorted(tokens(r.source)), c = sorted(tokens(q.header)) + sorted(tokens(q.source)); size_t i = 0; while (i < a.size() && i < c.size() && a[i] == c[i]) ++i; i = a.rfind('\n', i) == a.npos ? 0 : a.rfind('\n', i) + 1; why = a.substr(i, 140) + " ### " + c.substr(i, 140); }
                }
            }
        }
        for (auto &f : files) unlink((dir + "/" + f.first).c_str());
        fprintf(answers, "%d|%d|%d|%d|%016llx|%016llx|%016llx|%d|%016llx|%s|%s|%s|%s\n", r.rc, int(r.h), int(r.cc), int(same), (unsigned long long)fnv(tokens(r.header), fnv(tokens(r.source))), (unsigned long long)sig, (unsigned long long)meaning, crc, (unsigned long long)csig, clean(r.message).c_str(), clean(gerr).c_str(), clean(why).c_str(), faults.c_str());
        fflush(answers);
    }
    return 0;
}
