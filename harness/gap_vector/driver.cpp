#include <neolib/core/gap_vector.hpp>
#include <string>
#include "seq_driver.hpp"
// one configuration per translation unit: -DGAP=.. -DNEAR=.. -DELEM=.. -DMAXLEN=.. -DBULK=..
int main(int argc, char** argv)
{
    using namespace vt;
    SeqDriver<neolib::gap_vector<ELEM, GAP, NEAR>, ELEM> d(MAXLEN);
    d.bulk = BULK; if (BULK) E::Out_unbuffered() = false;
    return seq_main(d, argc, argv, 1);
}
