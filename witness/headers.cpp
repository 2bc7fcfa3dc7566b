// flags: -femit-all-decls
// The inline methods of the headers, also those no translation unit of the library uses.
#if __has_include(<softlib/MagneticField/MagneticFieldLUKE.h>)
#include <softlib/MagneticField/MagneticFieldLUKE.h>
#endif
#if __has_include(<softlib/MagneticField/MagneticFieldNumeric2D.h>)
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#endif
#if __has_include(<softlib/MagneticField/MagneticFieldAnalytical2D.h>)
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#endif
#if __has_include(<softlib/DistributionFunction/AnalyticalAvalanche.h>)
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#endif
#if __has_include(<softlib/DistributionFunction/BesselRadialProfile.h>)
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#endif
#if __has_include(<softlib/DistributionFunction/CODEDistributionFunction.h>)
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/ConnorHastieDistribution.h>)
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#endif
#if __has_include(<softlib/DistributionFunction/DREAMDistributionFunction.h>)
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/DistributionFunction.h>)
#include <softlib/DistributionFunction/DistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/ExponentialPitch.h>)
#include <softlib/DistributionFunction/ExponentialPitch.h>
#endif
#if __has_include(<softlib/DistributionFunction/GOCODEDistributionFunction.h>)
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/GaussianRadialProfile.h>)
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#endif
#if __has_include(<softlib/DistributionFunction/LUKEDistributionFunction.h>)
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/LinearRadialProfile.h>)
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#endif
#if __has_include(<softlib/DistributionFunction/MomentumSpaceDistributionFunction.h>)
#include <softlib/DistributionFunction/MomentumSpaceDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/NumericDistributionFunction.h>)
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>)
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/PowerRadialProfile.h>)
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#endif
#if __has_include(<softlib/DistributionFunction/RadialDistributionFunction.h>)
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/RadialProfile.h>)
#include <softlib/DistributionFunction/RadialProfile.h>
#endif
#if __has_include(<softlib/DistributionFunction/SOFTDistributionFunction.h>)
#include <softlib/DistributionFunction/SOFTDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/UniformRadialProfile.h>)
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#endif
#if __has_include(<softlib/DistributionFunction/UnitDistributionFunction.h>)
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
#endif
#if __has_include(<softlib/DistributionFunction/deprSOFTDistributionFunction.h>)
#include <softlib/DistributionFunction/deprSOFTDistributionFunction.h>
#endif
