// Codes of the named values (VITA 49.2).  Fields are set through the names, so that a value that reaches the wire is one the
// user asked for by name.
#pragma once
#include <vrtgen/vrtgen.hpp>

#include "pkt.h"

namespace pkt {
PKT_NAMED(vrtgen::packing::TSI, {0, T::NONE}, {1, T::UTC}, {2, T::GPS}, {3, T::OTHER})
PKT_NAMED(vrtgen::packing::TSF, {0, T::NONE}, {1, T::SAMPLE_COUNT}, {2, T::REAL_TIME}, {3, T::FREE_RUNNING})
PKT_NAMED(vrtgen::packing::TSM, {0, T::FINE}, {1, T::COARSE})
PKT_NAMED(vrtgen::packing::SPECTRUM_OR_TIME, {0, T::TIME}, {1, T::SPECTRUM})
PKT_NAMED(vrtgen::packing::IdentifierFormat, {0, T::WORD}, {1, T::UUID})
PKT_NAMED(vrtgen::packing::ActionMode, {0, T::NO_ACTION}, {1, T::DRY_RUN}, {2, T::EXECUTE})
PKT_NAMED(vrtgen::packing::TimestampControlMode, {0, T::IGNORE}, {1, T::DEVICE}, {2, T::LATE}, {3, T::EARLY}, {4, T::EARLY_LATE}, {7, T::TIMING_ISSUES})
PKT_NAMED(vrtgen::packing::AGCMode, {0, T::MGC}, {1, T::AGC})
PKT_NAMED(vrtgen::packing::DataItemFormat, {0, T::SIGNED_FIXED}, {1, T::SIGNED_VRT_1}, {2, T::SIGNED_VRT_2}, {3, T::SIGNED_VRT_3}, {4, T::SIGNED_VRT_4}, {5, T::SIGNED_VRT_5}, {6, T::SIGNED_VRT_6}, {7, T::SIGNED_FIXED_NON_NORMALIZED}, {13, T::IEEE754_HALF_PRECISION}, {14, T::IEEE754_SINGLE_PRECISION}, {15, T::IEEE754_DOUBLE_PRECISION}, {16, T::UNSIGNED_FIXED}, {17, T::UNSIGNED_VRT_1}, {18, T::UNSIGNED_VRT_2}, {19, T::UNSIGNED_VRT_3}, {20, T::UNSIGNED_VRT_4}, {21, T::UNSIGNED_VRT_5}, {22, T::UNSIGNED_VRT_6}, {23, T::UNSIGNED_FIXED_NON_NORMALIZED})
PKT_NAMED(vrtgen::packing::DataSampleType, {0, T::REAL}, {1, T::COMPLEX_CARTESIAN}, {2, T::COMPLEX_POLAR})
PKT_NAMED(vrtgen::packing::EntrySize, {1, T::EIGHT_BIT}, {2, T::SIXTEEN_BIT}, {4, T::THIRTY_TWO_BIT})
PKT_NAMED(vrtgen::packing::PackingMethod, {0, T::PROCESSING_EFFICIENT}, {1, T::LINK_EFFICIENT})
PKT_NAMED(vrtgen::packing::SSI, {0, T::SINGLE}, {1, T::FIRST}, {2, T::MIDDLE}, {3, T::FINAL})
PKT_NAMED(vrtgen::packing::V49StandardCompliance, {1, T::V49_0}, {2, T::V49_1}, {3, T::V49_A}, {4, T::V49_2})
PKT_NAMED(vrtgen::packing::SpectrumType, {0, T::NONE}, {1, T::LOG_POWER}, {2, T::CARTESIAN}, {3, T::POLAR}, {4, T::MAGNITUDE})
PKT_NAMED(vrtgen::packing::AveragingType, {0, T::NONE}, {1, T::LINEAR}, {2, T::PEAK_HOLD}, {4, T::MIN_HOLD}, {8, T::EXPONENTIAL}, {16, T::MEDIAN}, {32, T::SMOOTHING})
PKT_NAMED(vrtgen::packing::WindowTimeDelta, {0, T::NONE}, {1, T::PERCENT}, {2, T::SAMPLES}, {3, T::TIME})
PKT_NAMED(vrtgen::packing::WindowType, {0, T::RECTANGLE}, {1, T::TRIANGLE}, {2, T::HANNING_ALPHA_1}, {3, T::HANNING_ALPHA_2}, {4, T::HANNING_ALPHA_3}, {5, T::HANNING_ALPHA_4}, {6, T::HAMMING}, {7, T::RIESZ}, {8, T::RIEMANN}, {9, T::DE_LA_VALLEPOUSSIN}, {10, T::TUKEY_POINT_25}, {11, T::TUKEY_POINT_50}, {12, T::TUKEY_POINT_75}, {13, T::BOHMAN}, {14, T::POISSON_2}, {15, T::POISSON_3}, {16, T::POISSON_4}, {17, T::HANNING_POISSON_POINT_50}, {18, T::HANNING_POISSON_1}, {19, T::HANNING_POISSON_2}, {20, T::CAUCHY_3}, {21, T::CAUCHY_4}, {22, T::CAUCHY_5}, {23, T::GAUSSIAN_2_POINT_50}, {24, T::GAUSSIAN_3}, {25, T::GAUSSIAN_3_POINT_50}, {26, T::DOLPH_CHEBYSHEV_2_POINT_50}, {27, T::DOLPH_CHEBYSHEV_3}, {28, T::DOLPH_CHEBYSHEV_3_POINT_50}, {29, T::DOLPH_CHEBYSHEV_4}, {30, T::KAISER_BESSEL_2}, {31, T::KAISER_BESSEL_2_POINT_50}, {32, T::KAISER_BESSEL_3}, {33, T::KAISER_BESSEL_3_POINT_50}, {34, T::BARCILON_TEMES_3}, {35, T::BARCILON_TEMES_3_POINT_50}, {36, T::BARCILON_TEMES_4}, {37, T::EXACT_BLACKMAN}, {38, T::BLACKMAN}, {39, T::MIN_THREE_SAMPLE_BLACKMAN_HARRIS}, {40, T::MIN_FOUR_SAMPLE_BLACKMAN_HARRIS}, {41, T::THREE_SAMPLE_BLACKMAN_HARRIS_61DB}, {42, T::FOUR_SAMPLE_BLACKMAN_HARRIS_74DB}, {43, T::FOUR_SAMPLE_KAISER_BESSEL})
} // namespace pkt
