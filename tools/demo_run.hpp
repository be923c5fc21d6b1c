// Runs of the calculation program (in child processes) and their results.
#include "Hamiltonianmatrix.hpp"
#include "Interface.hpp"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using Conf = std::map<std::string, std::string>;
inline Conf one_atom(int n, int l, double j, double m) {
    Conf c;
    for (std::string s : {"1", "2"}) {
        c["species" + s] = "Rb"; c["n" + s] = std::to_string(n); c["l" + s] = std::to_string(l);
        c["j" + s] = std::to_string(j); c["m" + s] = std::to_string(m);
    }
    for (std::string s : {"Ex", "Ey", "Ez", "Bx", "By", "Bz"}) c["min" + s] = c["max" + s] = "0";
    c["deltaESingle"] = "200"; c["deltaNSingle"] = "1"; c["deltaLSingle"] = "1"; c["deltaJSingle"] = "-1"; c["deltaMSingle"] = "-1";
    c["missingCalc"] = "true"; c["missingWhittaker"] = "false"; c["diamagnetism"] = "false"; c["steps"] = "1";
    c["samebasis"] = "true";
    return c;
}
inline Conf two_atoms(int n, int l, double j, double m) {
    Conf c = one_atom(n, l, j, m);
    for (std::string k : {"deltaEPair", "deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair"}) c[k] = "-1";
    for (std::string k : {"conserveM", "sametrafo", "invE", "invO", "perE", "perO", "refE", "refO"}) c[k] = "false";
    c["zerotheta"] = "true"; c["exponent"] = "3"; c["minR"] = "5"; c["maxR"] = "5"; c["deltaEPair"] = "20";
    return c;
}
struct Out { int type, number; std::vector<double> energies; };
// the results of a run, in the cache directory given
inline std::vector<Out> run(const Conf &c, const std::string &cache) {
    static int count = 0;
    mkdir(cache.c_str(), 0700);
    std::string id = "run" + std::to_string(count++), conf = id + ".json", log = id + ".log";
    { std::ofstream f(conf); f << "{"; bool first = true;
      for (auto &p : c) { f << (first ? "" : ",") << "\n\"" << p.first << "\": \"" << p.second << "\""; first = false; }
      f << "\n}\n"; }
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1);
        int rc = 1;
        try { rc = compute<double>(conf, cache); } catch (std::exception &e) { std::fprintf(stderr, "%s\n", e.what()); }
        std::fflush(nullptr);
        _exit(rc);
    }
    int st; waitpid(pid, &st, 0);
    std::vector<Out> out;
    std::ifstream f(log); std::string line; int type = -1;
    while (std::getline(f, line)) {
        if (line.substr(0, 5) == ">>TYP") type = std::stoi(line.substr(5));
        if (line.substr(0, 5) != ">>OUT") continue;
        std::istringstream is(line.substr(5)); int number, step, n, block; std::string path;
        is >> number >> step >> n >> block >> path;
        Hamiltonianmatrix<double> m; Out o{type, number, {}};
        if (!m.load(path + ".mat")) { std::printf("%s cannot be read\n", path.c_str()); std::exit(1); }
        Eigen::MatrixXd e(m.entries());
        for (int i = 0; i < e.rows(); ++i) for (int k = 0; k < e.rows(); ++k) {
            if (i != k && e(i, k) != 0) { std::printf("%s is not diagonal\n", path.c_str()); std::exit(1); }
        }
        for (int i = 0; i < e.rows(); ++i) o.energies.push_back(e(i, i));
        std::sort(o.energies.begin(), o.energies.end());
        out.push_back(o);
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || out.empty()) { std::printf("the program failed\n"); std::exit(1); }
    std::sort(out.begin(), out.end(), [](const Out &a, const Out &b) { return std::make_pair(a.type, a.number) < std::make_pair(b.type, b.number); });
    return out;
}
inline bool same(const std::vector<Out> &a, const std::vector<Out> &b, double tol = 1e-9) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].type != b[i].type || a[i].energies.size() != b[i].energies.size()) return false;
        for (size_t k = 0; k < a[i].energies.size(); ++k) if (!(std::abs(a[i].energies[k] - b[i].energies[k]) <= tol)) return false;
    }
    return true;
}
