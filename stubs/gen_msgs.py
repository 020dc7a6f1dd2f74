#!/usr/bin/env python3
"""Writes the message structs (/verif/stubs/include/...) that the ROS message generators would write,
as plain structs with ROS' default values (zeros)."""
import os, sys
OUT = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.abspath(__file__)), "include")
DEFS = """
std_msgs/Header: u32 seq; time stamp; string frame_id
std_msgs/ColorRGBA: f32 r; f32 g; f32 b; f32 a
std_msgs/String: string data
std_msgs/Bool: bool data
std_msgs/UInt32: u32 data
std_msgs/Int32: i32 data
std_msgs/Float64: f64 data
std_msgs/Float32: f32 data
std_msgs/Empty:
std_msgs/MultiArrayDimension: string label; u32 size; u32 stride
std_msgs/MultiArrayLayout: std_msgs/MultiArrayDimension[] dim; u32 data_offset
std_msgs/Float64MultiArray: std_msgs/MultiArrayLayout layout; f64[] data
std_msgs/Float32MultiArray: std_msgs/MultiArrayLayout layout; f32[] data
std_msgs/Int64MultiArray: std_msgs/MultiArrayLayout layout; i64[] data
std_msgs/Int32MultiArray: std_msgs/MultiArrayLayout layout; i32[] data
geometry_msgs/Point: f64 x; f64 y; f64 z
geometry_msgs/Point32: f32 x; f32 y; f32 z
geometry_msgs/Vector3: f64 x; f64 y; f64 z
geometry_msgs/Quaternion: f64 x; f64 y; f64 z; f64 w
geometry_msgs/Pose: geometry_msgs/Point position; geometry_msgs/Quaternion orientation
geometry_msgs/Twist: geometry_msgs/Vector3 linear; geometry_msgs/Vector3 angular
geometry_msgs/PoseStamped: std_msgs/Header header; geometry_msgs/Pose pose
geometry_msgs/PointStamped: std_msgs/Header header; geometry_msgs/Point point
geometry_msgs/TwistStamped: std_msgs/Header header; geometry_msgs/Twist twist
geometry_msgs/Vector3Stamped: std_msgs/Header header; geometry_msgs/Vector3 vector
geometry_msgs/QuaternionStamped: std_msgs/Header header; geometry_msgs/Quaternion quaternion
geometry_msgs/PoseArray: std_msgs/Header header; geometry_msgs/Pose[] poses
geometry_msgs/Transform: geometry_msgs/Vector3 translation; geometry_msgs/Quaternion rotation
geometry_msgs/TransformStamped: std_msgs/Header header; string child_frame_id; geometry_msgs/Transform transform
nav_msgs/Path: std_msgs/Header header; geometry_msgs/PoseStamped[] poses
nav_msgs/GridCells: std_msgs/Header header; f32 cell_width; f32 cell_height; geometry_msgs/Point[] cells
nav_msgs/MapMetaData: time map_load_time; f32 resolution; u32 width; u32 height; geometry_msgs/Pose origin
nav_msgs/OccupancyGrid: std_msgs/Header header; nav_msgs/MapMetaData info; i8[] data
nav_msgs/Odometry: std_msgs/Header header; string child_frame_id; geometry_msgs/Pose pose_; geometry_msgs/Twist twist_
sensor_msgs/PointField: const u8 INT8=1; const u8 UINT8=2; const u8 INT16=3; const u8 UINT16=4; const u8 INT32=5; const u8 UINT32=6; const u8 FLOAT32=7; const u8 FLOAT64=8; string name; u32 offset; u8 datatype; u32 count
sensor_msgs/PointCloud2: std_msgs/Header header; u32 height; u32 width; sensor_msgs/PointField[] fields; bool is_bigendian; u32 point_step; u32 row_step; u8[] data; bool is_dense
sensor_msgs/LaserScan: std_msgs/Header header; f32 angle_min; f32 angle_max; f32 angle_increment; f32 time_increment; f32 scan_time; f32 range_min; f32 range_max; f32[] ranges; f32[] intensities
sensor_msgs/Image: std_msgs/Header header; u32 height; u32 width; string encoding; u8 is_bigendian; u32 step; u8[] data
sensor_msgs/CameraInfo: std_msgs/Header header; u32 height; u32 width
sensor_msgs/Range: std_msgs/Header header; u8 radiation_type; f32 field_of_view; f32 min_range; f32 max_range; f32 range
visualization_msgs/Marker: const i32 ARROW=0; const i32 CUBE=1; const i32 SPHERE=2; const i32 CYLINDER=3; const i32 LINE_STRIP=4; const i32 LINE_LIST=5; const i32 CUBE_LIST=6; const i32 SPHERE_LIST=7; const i32 POINTS=8; const i32 TEXT_VIEW_FACING=9; const i32 MESH_RESOURCE=10; const i32 TRIANGLE_LIST=11; const i32 ADD=0; const i32 MODIFY=0; const i32 DELETE=2; const i32 DELETEALL=3; std_msgs/Header header; string ns; i32 id; i32 type; i32 action; geometry_msgs/Pose pose; geometry_msgs/Vector3 scale; std_msgs/ColorRGBA color; duration lifetime; bool frame_locked; geometry_msgs/Point[] points; std_msgs/ColorRGBA[] colors; string text; string mesh_resource; bool mesh_use_embedded_materials
visualization_msgs/MarkerArray: visualization_msgs/Marker[] markers
mavros_msgs/PositionTarget: std_msgs/Header header; const u8 FRAME_LOCAL_NED=1; const u16 IGNORE_PX=1; u8 coordinate_frame; u16 type_mask; geometry_msgs/Point position; geometry_msgs/Vector3 velocity; geometry_msgs/Vector3 acceleration_or_force; f32 yaw; f32 yaw_rate
mavros_msgs/Trajectory: const u8 MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS=0; const u8 MAV_TRAJECTORY_REPRESENTATION_BEZIER=1; std_msgs/Header header; u8 type; mavros_msgs/PositionTarget point_1; mavros_msgs/PositionTarget point_2; mavros_msgs/PositionTarget point_3; mavros_msgs/PositionTarget point_4; mavros_msgs/PositionTarget point_5; u8[5] point_valid; u16[5] command; f32[5] time_horizon
mavros_msgs/ParamValue: i64 integer; f64 real
mavros_msgs/Param: std_msgs/Header header; string param_id; mavros_msgs/ParamValue value; u16 param_index; u16 param_count
mavros_msgs/Waypoint: u8 frame; u16 command; bool is_current; bool autocontinue; f32 param1; f32 param2; f32 param3; f32 param4; f64 x_lat; f64 y_long; f64 z_alt
mavros_msgs/WaypointList: u16 current_seq; mavros_msgs/Waypoint[] waypoints
mavros_msgs/State: const string MODE_PX4_MISSION="AUTO.MISSION"; std_msgs/Header header; bool connected; bool armed; bool guided; bool manual_input; string mode; u8 system_status
mavros_msgs/Altitude: std_msgs/Header header; f32 monotonic; f32 amsl; f32 local; f32 relative; f32 terrain; f32 bottom_clearance
mavros_msgs/CompanionProcessStatus: const u8 MAV_STATE_UNINIT=0; const u8 MAV_STATE_BOOT=1; const u8 MAV_STATE_CALIBRATING=2; const u8 MAV_STATE_STANDBY=3; const u8 MAV_STATE_ACTIVE=4; const u8 MAV_STATE_CRITICAL=5; const u8 MAV_STATE_EMERGENCY=6; const u8 MAV_STATE_POWEROFF=7; const u8 MAV_STATE_FLIGHT_TERMINATION=8; const u8 MAV_COMP_ID_OBSTACLE_AVOIDANCE=196; const u8 MAV_COMP_ID_VISUAL_INERTIAL_ODOMETRY=197; std_msgs/Header header; u8 state; u8 component
octomap_msgs/Octomap: std_msgs/Header header; bool binary; string id; f64 resolution; i8[] data
"""
SRV = """
mavros_msgs/ParamGet: string param_id --- bool success; mavros_msgs/ParamValue value
mavros_msgs/ParamSet: string param_id; mavros_msgs/ParamValue value --- bool success; mavros_msgs/ParamValue value
mavros_msgs/SetMode: u8 base_mode; string custom_mode --- bool mode_sent
mavros_msgs/CommandBool: bool value --- bool success; u8 result
"""
T = {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "i8": "int8_t", "i32": "int32_t", "i64": "int64_t", "f32": "float", "f64": "double",
     "string": "std::string", "bool": "uint8_t", "time": "ros::Time", "duration": "ros::Duration"}
SCALAR = {"u8", "u16", "u32", "i8", "i32", "i64", "f32", "f64", "bool"}
def ctype(t):
    return T.get(t) or t.replace("/", "::")
def fields(spec, own):
    lines, deps = [], []
    for f in [x.strip() for x in spec.split(";") if x.strip()]:
        if f.startswith("const "):
            _, t, kv = f.split(" ", 2); k, v = kv.split("=")
            if t == "string": lines.append(f"  static const char* {k}() {{ return {v}; }}")
            else: lines.append(f"  enum : {T[t]} {{ {k} = {v} }};")
            continue
        t, n = f.split(" ")
        base = t.split("[")[0]
        if base not in T: deps.append(base)
        if t.endswith("[]"): c = f"std::vector<{ctype(base)}> {n};"
        elif "[" in t: c = f"std::array<{ctype(base)}, {t.split('[')[1][:-1]}> {n}{{}};" 
        elif t in SCALAR: c = f"{ctype(t)} {n} = 0;"
        else: c = f"{ctype(t)} {n};"
        lines.append("  " + c)
    return lines, deps
def wr(path, txt):
    p = os.path.join(OUT, path); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
def emit(full, body, deps):
    pkg, name = full.split("/")
    inc = "".join(f"#include <{d}.h>\n" for d in dict.fromkeys(deps) if d != full)
    # boost::array in ROS; std::array has the same interface and also converts from {..} lists
    wr(full + ".h", f"#pragma once\n#include <rosstub/core.h>\n{inc}namespace {pkg} {{\n{body}}}\n")
def struct(name, lines):
    b = f"struct {name} {{\n" + "\n".join(lines) + "\n"
    b += f"  typedef boost::shared_ptr<{name}> Ptr;\n  typedef boost::shared_ptr<{name} const> ConstPtr;\n}};\n"
    b += f"typedef boost::shared_ptr<{name}> {name}Ptr;\ntypedef boost::shared_ptr<{name} const> {name}ConstPtr;\n"
    return b
def msg(full, spec):
    lines, deps = fields(spec, full)
    emit(full, struct(full.split("/")[1], lines), deps)
def main():
    for l in DEFS.strip().splitlines():
        n, s = l.split(":", 1); msg(n.strip(), s)
    for l in SRV.strip().splitlines():
        n, s = l.split(":", 1); n = n.strip(); a, b = s.split("---")
        nm = n.split("/")[1]
        la, da = fields(a, n); lb, db = fields(b, n)
        body = f"struct {nm}Request {{\n" + "\n".join(la) + "\n};\n" + f"struct {nm}Response {{\n" + "\n".join(lb) + "\n};\n"
        body += f"struct {nm} {{\n  typedef {nm}Request Request;\n  typedef {nm}Response Response;\n  Request request;\n  Response response;\n}};\n"
        emit(n, body, da + db)
if __name__ == "__main__":
    main()
