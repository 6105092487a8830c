// Loads a decision diagram file with the tool's own loader over variables 0..n-1 and evaluates it.
// usage: bddload FILE NVARS < assignments (one bit string per line) > one 0/1 per line; "LOADED refs=K" at the end
#include "BFCudd.h"
#include "BFCuddVarCube.h"
#include "BFCuddVarVector.h"
#include "BFCuddInlines.h"
#include "cudd.h"
#include <iostream>
#include <string>
#include <vector>
#include <cstdlib>
int main(int argc, char **argv) {
    int n = atoi(argv[2]);
    BFBddManager mgr;
    try {
        std::vector<BFBdd> vars;
        for (int i = 0; i < n; i++) vars.push_back(mgr.newVariable());
        BFBdd b = mgr.readBDDFromFile(argv[1], vars);
        std::string line;
        while (std::getline(std::cin, line)) {
            std::vector<int> in(n);
            for (int i = 0; i < n; i++) in[i] = line[i] - '0';
            DdNode *r = Cudd_Eval(mgr.getMgr(), b.getCuddNode(), in.data());
            std::cout << (r == Cudd_ReadOne(mgr.getMgr()) ? 1 : 0) << "\n";
        }
    } catch (const std::exception &e) {
        std::cout << "ERROR " << e.what() << "\n";
        return 1;
    } catch (const char *e) {
        std::cout << "ERROR " << e << "\n";
        return 1;
    }
    std::cout << "LOADED refs=" << Cudd_CheckZeroRef(mgr.getMgr()) << "\n";
    return 0;
}
