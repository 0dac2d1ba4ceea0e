// Translation unit that only instantiates the class templates of the library,
// so that the analysis sees every member of them and not only the members that
// the sources of the library happen to use.
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
template class gsplines::GSplineInheritanceHelper<gsplines::GSpline,
                                                  gsplines::GSplineBase>;
template class gsplines::GSplineInheritanceHelper<
    gsplines::collocation::GaussLobattoLagrangeSpline, gsplines::GSplineBase>;
