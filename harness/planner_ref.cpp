#include "planner.hpp"
#include "refsteering_functions/dubins_state_space/dubins_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "refsteering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "refsteering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#define SF refsteering
#define OUT ref
#include "planner_impl.inc"
