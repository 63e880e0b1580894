// Readers of machine settings shared by the drivers.
#pragma once
#include <map>
#include "cfg.h"

inline std::map<std::string, double> read_axes(In& in)
{
    std::map<std::string, double> m;
    long long n = in.num();
    for (long long i = 0; i < n; ++i) { auto k = in.str(); m[k] = in.dbl(); }
    return m;
}
inline ParserSettings read_flags(In& in)
{
    ParserSettings p{};
    p.evaluate_macro = in.flag(); p.verify_code_groups = in.flag(); p.calculate_path = in.flag();
    p.ncsettings_code_analysis = in.flag(); p.zero_point_analysis = in.flag();
    return p;
}
inline Kinematics read_kin(In& in)
{
    Kinematics k{};
    long long n = in.num();
    for (long long i = 0; i < n; ++i) { auto a = in.str(); AxisParameters p{}; p.range_min = in.dbl(); p.range_max = in.dbl(); k.cartesian_system_axis[a] = p; }
    k.max_working_feed = in.dbl(); k.max_fast_feed = in.dbl(); k.maximum_spindle_speed = (int)in.num();
    k.numer_of_items_in_the_warehouse = (int)in.num(); k.tool_exchange_time = (int)in.num(); k.pallet_exchange_time = (int)in.num();
    k.tool_measurement_time = (int)in.num(); k.diameter_programming_2x = in.flag(); k.auto_measure_after_tool_selection = in.flag();
    k.pallet_exchange_code = in.str(); k.pallet_exchange_code_value = in.str(); k.tool_measurement_code = in.str(); k.tool_measurement_code_value = in.str();
    return k;
}
inline CncDefaultValues read_cnc(In& in)
{
    CncDefaultValues c{};
    c.default_motion = (EMotion)in.num(); c.default_work_plane = (EWorkPlane)in.num(); c.default_driver_units = (EDriverUnits)in.num();
    c.default_programming = (EProgrammingType)in.num(); c.default_feed_mode = (EFeedMode)in.num(); c.default_rotation_direction = (ERotationDirection)in.num();
    c.drill_cycle_z_value = (EDepthProgrammingType)in.num(); c.drill_cycle_return_value = (EDrillGreturnMode)in.num(); c.default_rotation = (int)in.num();
    c.rapid_traverse_cancel_cycle = in.flag(); c.linear_interpolation_cancel_cycle = in.flag(); c.circular_interpolation_cw_cancel_cycle = in.flag();
    c.circular_interpolation_ccw_cancel_cycle = in.flag(); c.cycle_cancel_starts_rapid_traverse = in.flag(); c.operator_turns_on_rotation = in.flag();
    c.tool_number_executes_exchange = in.flag(); c.auto_rapid_traverse_after_tool_exchange = in.flag();
    return c;
}

