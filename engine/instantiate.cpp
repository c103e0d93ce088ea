// Not compiled into anything: parsed by the extractor so that header-only templates which no other
// translation unit instantiates are analysed too.
#include "Fraction.h"
#include "Rational.h"
#include "Combined_order.h"
#include "First_unassigned.h"
namespace yaga {
using inst_fraction = Fraction<int>;
}
template class yaga::Fraction<int>;
