// Runs a program over the BF library's operations and records, after every
// instruction, the functions held by all registers (as truth tables) and the
// answers of all queries.  Input: stdin, one instruction per line.
#include "BF.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <cmath>
#include <unistd.h>
using namespace std;

static string scratchFile;

int main(int argc, char **argv) {
    scratchFile = argv[1];
    int n, noise, k;
    if (!(cin >> n >> noise >> k)) return 3;
    vector<int> orderOfCreation(n + noise);
    for (auto &x : orderOfCreation) cin >> x;   // a permutation: which variables are the n visible ones
    BFManager mgr;
    vector<BF> all(n + noise);
    vector<BF> created;
    vector<string> names;
    for (int i = 0; i < n + noise; i++) {
        created.push_back(mgr.newVariable());
        ostringstream o;
        o << "v" << i;
        names.push_back(o.str());
        all[orderOfCreation[i]] = created.back();
    }
    vector<BF> v(all.begin(), all.begin() + n), z(all.begin() + n, all.end());
    vector<BF> reg(k, mgr.constantFalse());
    vector<int> assignment;
    auto table = [&](const BF &b) {
        string s;
        DdManager *m = b.manager()->getMgr();
        vector<int> in(Cudd_ReadSize(m), 0);
        for (int noiseval = 0; noiseval < 2; noiseval++) {
            for (auto &x : z) in[x.readNodeIndex()] = noiseval;
            string t;
            for (int a = 0; a < (1 << n); a++) {
                for (int i = 0; i < n; i++) in[v[i].readNodeIndex()] = (a >> i) & 1;
                t += (Cudd_Eval(m, b.getCuddNode(), in.data()) == Cudd_ReadOne(m)) ? '1' : '0';
            }
            if (noiseval == 0) s = t;
            else if (s != t) s += "/" + t;      // depends on a foreign variable
        }
        return s;
    };
    auto pick = [&](int mask) {
        vector<BF> r;
        for (int i = 0; i < n; i++) if ((mask >> i) & 1) r.push_back(v[i]);
        return r;
    };
    string line;
    getline(cin, line);
    unsigned seed = 12345;
    while (getline(cin, line)) {
        istringstream is(line);
        string op;
        int d = 0, a = 0, b = 0, m = 0;
        is >> op >> d >> a >> b >> m;
        string ans = "-";
        if (op == "const") reg[d] = a ? mgr.constantTrue() : mgr.constantFalse();
        else if (op == "var") reg[d] = v[a];
        else if (op == "copy") { BF t(reg[a]); reg[d] = t; }
        else if (op == "move") { BF t(reg[a]); BF u(std::move(t)); reg[d] = std::move(u); }
        else if (op == "self") { BF &r = reg[d]; r = reg[d]; }
        else if (op == "not") reg[d] = !reg[a];
        else if (op == "and") reg[d] = reg[a] & reg[b];
        else if (op == "or") reg[d] = reg[a] | reg[b];
        else if (op == "xor") reg[d] = reg[a] ^ reg[b];
        else if (op == "diff") reg[d] = reg[a] - reg[b];
        else if (op == "implies") reg[d] = reg[a].Implies(reg[b]);
        else if (op == "andassign") reg[d] &= reg[a];
        else if (op == "orassign") reg[d] |= reg[a];
        else if (op == "exists") reg[d] = reg[a].ExistAbstract(mgr.computeCube(pick(m)));
        else if (op == "forall") reg[d] = reg[a].UnivAbstract(mgr.computeCube(pick(m)));
        else if (op == "exists1") reg[d] = reg[a].ExistAbstractSingleVar(v[b]);
        else if (op == "forall1") reg[d] = reg[a].UnivAbstractSingleVar(v[b]);
        else if (op == "andexists") {
            vector<BF> vs = pick(m);
            vector<int> ph(vs.size(), 1);
            BFVarCube c = mgr.computeCube(vs), c2;
            c2 = c;
            reg[d] = reg[a].AndAbstract(reg[b], c2);
        } else if (op == "cube") {                       // the conjunction of variables, via phases
            vector<BF> vs = pick(m);
            vector<int> ph;
            for (int i = 0; i < n; i++) if ((m >> i) & 1) ph.push_back((b >> i) & 1);
            mgr.computeCube(vs.data(), ph.data(), (int)vs.size());
            BF r = mgr.constantTrue();
            for (size_t i = 0; i < vs.size(); i++) r &= ph[i] ? vs[i] : !vs[i];
            reg[d] = r;
        } else if (op == "swap") {                       // x_i <-> y_i
            int mx = b, my = m;
            BFVarVector x = mgr.computeVarVector(pick(mx)), y;
            y = mgr.computeVarVector(pick(my));
            reg[d] = reg[a].SwapVariables(x, y);
        } else if (op == "restrict") reg[d] = reg[a].optimizeRestrict(reg[b]);
        else if (op == "minimize") reg[d] = reg[a].minimizeUsingCareSet(reg[b]);
        else if (op == "multiand" || op == "multior") {
            vector<BF> p;
            for (int i = 0; i < k; i++) if ((m >> i) & 1) p.push_back(reg[i]);
            reg[d] = op == "multiand" ? mgr.multiAnd(p) : mgr.multiOr(p);
        } else if (op == "file") {                       // write to a file, read it back
            mgr.writeBDDToFile(scratchFile.c_str(), b ? "# header\n# more\n" : "", reg[a], created, names);
            if (b) {                                     // remove the header lines again
                ifstream f(scratchFile); string all2, l;
                while (getline(f, l)) if (l[0] != '#') all2 += l + "\n";
                f.close(); ofstream g(scratchFile); g << all2;
            }
            reg[d] = mgr.readBDDFromFile(scratchFile.c_str(), created);
        } else if (op == "noise") {                      // unrelated work, garbage and a new variable order
            BF f = mgr.constantFalse(), g = mgr.constantTrue();
            for (int i = 0; i < a; i++) {
                seed = seed * 1103515245u + 12345u;
                BF x = z[(seed >> 16) % z.size()], y = v[(seed >> 20) % v.size()], w = z[(seed >> 12) % z.size()];
                if ((seed >> 8) & 1) f = (f ^ (x & y)) | (w & !y); else g = (g & (x | !w)) ^ y;
            }
            f = f & g;
            if (b) Cudd_ReduceHeap(mgr.getMgr(), b == 1 ? CUDD_REORDER_SIFT : CUDD_REORDER_RANDOM, 0);
            if (m) { mgr.setAutomaticOptimisation(m == 2); }
        } else if (op == "istrue") ans = reg[a].isTrue() ? "1" : "0";
        else if (op == "isfalse") ans = reg[a].isFalse() ? "1" : "0";
        else if (op == "isconst") ans = reg[a].isConstant() ? "1" : "0";
        else if (op == "eq") ans = (reg[a] == reg[b]) ? "1" : "0";
        else if (op == "ne") ans = (reg[a] != reg[b]) ? "1" : "0";
        else if (op == "le") ans = (reg[a] <= reg[b]) ? "1" : "0";
        else if (op == "ge") ans = (reg[a] >= reg[b]) ? "1" : "0";
        else if (op == "lt") ans = (reg[a] < reg[b]) ? "1" : "0";
        else if (op == "gt") ans = (reg[a] > reg[b]) ? "1" : "0";
        else if (op == "hash") ans = (reg[a].getHashCode() == reg[b].getHashCode()) ? "1" : "0";
        else if (op == "gfp") ans = (reg[a].ReachedGratestFixedPoint(reg[b]) && reg[a].ReachedLeastFixedPoint(reg[b])) ? "1" : "0";
        else if (op == "count") {
            double c = reg[a].getNofSatisfyingAssignments(mgr.computeCube(pick(m)));
            ostringstream o;
            if (std::isnan(c)) o << "nan"; else o << (long)c;
            ans = o.str();
        } else return 3;
        cout << ans;
        for (auto &r : reg) cout << " " << table(r);
        cout << "\n";
    }
    cout << "end\n";
    cout.flush();
    return 0;
}
