// Stands in for g++: the "object" says what went in (text, headers as found, flags), the "executable" says which objects.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using namespace std;

static bool slurp(const string& path, string& out)
{
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char buf[65536];
    out.clear();
    for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) out.append(buf, size_t(n));
    close(fd);
    return true;
}
static bool spill(const string& path, const string& s)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (fd < 0) return false;
    bool ok = write(fd, s.data(), s.size()) == ssize_t(s.size());
    close(fd);
    return ok;
}
static string norm(const string& p)
{
    vector<string> parts;
    size_t i = 0;
    while (i <= p.size())
    {
        size_t j = p.find('/', i);
        if (j == string::npos) j = p.size();
        string s = p.substr(i, j - i);
        if (s == ".." && !parts.empty()) parts.pop_back();
        else if (!s.empty() && s != ".") parts.push_back(s);
        i = j + 1;
    }
    string r;
    for (auto& s : parts) r += "/" + s;
    return r;
}
static string dirname_(const string& p) { return p.substr(0, p.rfind('/')); }

static vector<string> quotes, dirs;
static map<string, string> seen;      // header -> version

static string version(const string& s)
{
    size_t i = s.find("@v");
    return i == string::npos ? "0" : to_string(atoi(s.c_str() + i + 2));
}

static void follow(const string& path, const string& src);
static void broken(const string& src)
{
    if (src.find("@broken") == string::npos) return;
    fprintf(stderr, "a compile error\n");
    exit(1);
}
static void note(const string& what)
{
    const char* path = getenv("GXX_LOG");
    FILE* f = path ? fopen64(path, "a") : nullptr;
    if (!f) return;
    fprintf(f, "%s\n", what.c_str());
    fclose(f);
}
static void include(const string& from, const string& name, bool quoted)
{
    vector<string> where;
    if (quoted) { where.push_back(dirname_(from)); for (auto& q : quotes) where.push_back(q); }
    for (auto& d : dirs) where.push_back(d);
    for (auto& d : where)
    {
        string p = norm(d + "/" + name);
        if (seen.count(p)) return;
        if (access(p.c_str(), R_OK)) continue;
        string src;
        if (!slurp(p, src)) { fprintf(stderr, "cannot read %s\n", p.c_str()); exit(1); }
        broken(src);
        seen[p] = version(src);
        follow(p, src);
        return;
    }
    if (quoted) { fprintf(stderr, "no such header: %s\n", name.c_str()); exit(1); }
}
static void follow(const string& path, const string& src)
{
    size_t i = 0;
    while (i < src.size())
    {
        size_t e = src.find('\n', i);
        if (e == string::npos) e = src.size();
        size_t j = src.find_first_not_of(" \t", i);
        if (j < e && src[j] == '#')
        {
            j = src.find_first_not_of(" \t", j + 1);
            if (j != string::npos && !src.compare(j, 7, "include"))
            {
                j = src.find_first_not_of(" \t", j + 7);
                char end = src[j] == '"' ? '"' : '>';
                size_t k = src.find(end, j + 1);
                if (k < e) include(path, src.substr(j + 1, k - j - 1), end == '"');
            }
        }
        i = e + 1;
    }
}

int main(int argc, char** argv)
{
    bool compile = false;
    string out, flags;
    vector<string> in;
    for (int i = 1; i < argc; i++)
    {
        string a = argv[i];
        auto next = [&] { return ++i < argc ? string(argv[i]) : string(); };
        if (a.empty()) continue;
        if (a == "-c") compile = true;
        else if (a == "-o") out = next();
        else if (a == "-I") dirs.push_back(next());
        else if (a == "-iquote") quotes.push_back(next());
        else if (!strncmp(a.c_str(), "-I", 2)) dirs.push_back(a.substr(2));
        else if (!strncmp(a.c_str(), "-W", 2) && strncmp(a.c_str(), "-Wl,", 4)) {}
        else if (a[0] == '-') flags += (flags.empty() ? "\"" : ", \"") + a + "\"";
        else in.push_back(a);
    }
    if (compile)
    {
        string src;
        if (in.size() != 1 || !slurp(in[0], src)) { fprintf(stderr, "no input\n"); return 1; }
        broken(src);
        follow(in[0], src);
        string marks, hdrs;
        set<string> names;
        for (size_t i = 0; (i = src.find("@@", i)) != string::npos; i++)
        {
            size_t e = src.find('=', i);
            string name = src.substr(i + 2, e - i - 2);
            if (names.insert(name).second)
                marks += (marks.empty() ? "\"" : ", \"") + name + "\": " + to_string(atoi(src.c_str() + e + 1));
        }
        if (names.size() != 1) { fprintf(stderr, "not one of the modules: %s\n", in[0].c_str()); return 1; }
        note(*names.begin());
        unsigned long long h = 1469598103934665603ull;
        for (char c : src) h = (h ^ (unsigned char)c) * 1099511628211ull;
        for (auto& s : seen)
            hdrs += (hdrs.empty() ? "\"" : ", \"") + s.first + "\": " + s.second;
        if (!spill(out, "{\"marks\": {" + marks + "}, \"text\": \"" + to_string(h) + "\", \"hdrs\": {" + hdrs + "}, \"flags\": [" + flags + "]}")) return 1;
        return 0;
    }
    string all;
    for (auto& f : in)
    {
        string o;
        if (!slurp(f, o) || o.empty() || o[0] != '{' || o.back() != '}') { fprintf(stderr, "not an object: %s\n", f.c_str()); return 1; }
        all += (all.empty() ? "" : ",\n") + o;
    }
    return spill(out, "#!/bin/cat\n{\"objs\": [" + all + "], \"link\": [" + flags + "]}") ? 0 : 1;
}
