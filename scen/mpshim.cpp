// OMPL settings that have no C interface: a fixed seed, no messages, and the release of what OMPL keeps about spaces that are gone.
#include <ompl/util/RandomNumbers.h>
#include <ompl/util/Console.h>
#include <ompl/base/SpaceInformation.h>
#include <ompl/base/spaces/RealVectorStateSpace.h>
#include <ompl/tools/config/SelfConfig.h>
extern "C" void mp_ompl_seed(unsigned s) {
    ompl::msg::noOutputHandler();
    ompl::RNG::setSeed(s ? s : 1);
}
extern "C" void mp_ompl_flush(void) {
    static ompl::base::SpaceInformationPtr si(new ompl::base::SpaceInformation(ompl::base::StateSpacePtr(new ompl::base::RealVectorStateSpace(1))));
    ompl::tools::SelfConfig c(si, "flush");
}
