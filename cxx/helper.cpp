// C entry points, for the Python drivers, to parts of the library that the Python
// interface does not expose.  Linked to the library built from /repo's working tree.
#include "cantera/core.h"
#include "cantera/base/Solution.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/transport/Transport.h"
#include "cantera/base/global.h"
#include <cstring>
#include <string>
#include <map>
#include <memory>
#include <sstream>
#include <vector>
#include "cantera/numerics/Func1Factory.h"
#include "cantera/base/Interface.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/kinetics/ImplicitSurfChem.h"
#include "cantera/thermo/SurfPhase.h"
using namespace Cantera;

static std::string g_err, g_out;
static std::map<int, std::shared_ptr<Solution>> g_sol;
static int g_next = 1;

#define GUARD(...) try { __VA_ARGS__ } catch (std::exception& e) { g_err = e.what(); return -1; }

extern "C" {
const char* vp_error() { return g_err.c_str(); }
const char* vp_text() { return g_out.c_str(); }

int vp_solution(const char* yaml, const char* transport) {
    GUARD(
        AnyMap root = AnyMap::fromYamlString(yaml);
        AnyMap& ph = root["phases"].asVector<AnyMap>()[0];
        auto s = newSolution(ph, root, transport);
        g_sol[g_next] = s;
        return g_next++;
    )
}
int vp_free(int h) { g_sol.erase(h); return 0; }
int vp_setTPX(int h, double T, double P, const double* X) {
    GUARD( g_sol.at(h)->thermo()->setState_TPX(T, P, X); return 0; )
}
int vp_speciesFluxes(int h, int ndim, const double* gradT, const double* gradX, double* out) {
    GUARD(
        size_t n = g_sol.at(h)->thermo()->nSpecies();
        g_sol.at(h)->transport()->getSpeciesFluxes(ndim, gradT, n, gradX, n, out);
        return 0;
    )
}
int vp_massFluxes(int h, const double* s1, const double* s2, double delta, double* out, int molar) {
    GUARD(
        if (molar) { g_sol.at(h)->transport()->getMolarFluxes(s1, s2, delta, out); }
        else { g_sol.at(h)->transport()->getMassFluxes(s1, s2, delta, out); }
        return 0;
    )
}
int vp_conductivity(int h, double* out) {
    GUARD( *out = g_sol.at(h)->transport()->thermalConductivity(); return 0; )
}
int vp_binary(int h, double* out) {
    GUARD( size_t n = g_sol.at(h)->thermo()->nSpecies(); g_sol.at(h)->transport()->getBinaryDiffCoeffs(n, out); return 0; )
}
int vp_reference(int h, double* cp, double* hh, double* ss) {
    GUARD( auto t = g_sol.at(h)->thermo(); t->getCp_R_ref(cp); t->getEnthalpy_RT_ref(hh); t->getEntropy_R_ref(ss); return 0; )
}
int vp_standard(int h, double* cp, double* hh, double* ss, double* gg) {
    GUARD( auto t = g_sol.at(h)->thermo(); t->getCp_R(cp); t->getEnthalpy_RT(hh); t->getEntropy_R(ss); t->getGibbs_RT(gg); return 0; )
}
int vp_hf298(int h, int k, double* out) { GUARD( *out = g_sol.at(h)->thermo()->Hf298SS(k); return 0; ) }
int vp_modifyHf298(int h, int k, double v) { GUARD( g_sol.at(h)->thermo()->modifyOneHf298SS(k, v); return 0; ) }
int vp_resetHf298(int h, int k) { GUARD( g_sol.at(h)->thermo()->resetHf298(k < 0 ? npos : (size_t)k); return 0; ) }

// A functor built from a program in reverse Polish notation, one instruction per line
int vp_func(const char* prog, int n, const double* xs, double* out) {
    GUARD(
        std::vector<std::shared_ptr<Func1>> st;
        std::istringstream in(prog);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string op, type;
            ls >> op >> type;
            std::vector<double> p;
            for (std::string w; ls >> w;) { p.push_back(std::stod(w)); }
            if (op == "b") { st.push_back(newFunc1(type, p)); continue; }
            auto f = st.back(); st.pop_back();
            if (op == "d") { st.push_back(f->derivative()); continue; }
            if (op == "m") { st.push_back(newFunc1(type, f, p.at(0))); continue; }
            if (op == "n") { st.push_back(type == "times" ? newTimesConstFunction(f, p.at(0)) : newPlusConstFunction(f, p.at(0))); continue; }
            auto g = st.back(); st.pop_back();   // g op f
            if (op == "c") { st.push_back(newFunc1(type, g, f)); continue; }
            if (type == "sum") { st.push_back(newSumFunction(g, f)); }
            else if (type == "diff") { st.push_back(newDiffFunction(g, f)); }
            else if (type == "product") { st.push_back(newProdFunction(g, f)); }
            else if (type == "ratio") { st.push_back(newRatioFunction(g, f)); }
            else { st.push_back(newCompositeFunction(g, f)); }
        }
        for (int i = 0; i < n; i++) { out[i] = (*st.at(0))(xs[i]); }
        g_out = st[0]->type();
        return 0;
    )
}
// coverages of several surfaces (phases 1.. of the input) in contact with one gas, advanced together
int vp_coverages(const char* yaml, double T, double P, const double* X, double dt, double* theta) {
    GUARD(
        AnyMap root = AnyMap::fromYamlString(yaml);
        auto& phases = root["phases"].asVector<AnyMap>();
        auto gas = newSolution(phases[0], root, "none");
        gas->thermo()->setState_TPX(T, P, X);
        std::vector<std::shared_ptr<Interface>> ifs;
        std::vector<InterfaceKinetics*> kin;
        double* th = theta;
        for (size_t i = 1; i < phases.size(); i++) {
            auto s = newInterface(phases[i], root, std::vector<std::shared_ptr<Solution>>{gas});
            s->thermo()->setState_TP(T, P);
            auto sp = std::dynamic_pointer_cast<SurfPhase>(s->thermo());
            sp->setCoverages(th);
            th += sp->nSpecies();
            ifs.push_back(s);
            kin.push_back(dynamic_cast<InterfaceKinetics*>(s->kinetics().get()));
        }
        ImplicitSurfChem integ(kin, 1e-9, 1e-16);
        integ.integrate(0.0, dt);
        th = theta;
        for (auto& s : ifs) {
            auto sp = std::dynamic_pointer_cast<SurfPhase>(s->thermo());
            sp->getCoverages(th);
            th += sp->nSpecies();
        }
        return 0;
    )
}
}
