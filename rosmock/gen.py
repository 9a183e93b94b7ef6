#!/usr/bin/env python3
"""Generates the message and dynamic-reconfigure headers that a catkin build would generate.

usage: gen.py REPO OUTDIR
Standard ROS messages come from the compact table below (field for field as in the
upstream .msg files this project uses); the project's own .msg and .cfg files are read
from REPO, so a change there is seen.
"""
import os, re, sys, types, glob

SPEC = """
std_msgs/Header: uint32 seq; time stamp; string frame_id
std_msgs/String: string data
std_msgs/Bool: bool data
std_msgs/UInt32: uint32 data
std_msgs/Float64: float64 data
std_msgs/ColorRGBA: float32 r; float32 g; float32 b; float32 a
std_msgs/MultiArrayDimension: string label; uint32 size; uint32 stride
std_msgs/MultiArrayLayout: MultiArrayDimension[] dim; uint32 data_offset
std_msgs/Float64MultiArray: MultiArrayLayout layout; float64[] data
std_msgs/Int64MultiArray: MultiArrayLayout layout; int64[] data
geometry_msgs/Point: float64 x; float64 y; float64 z
geometry_msgs/Vector3: float64 x; float64 y; float64 z
geometry_msgs/Quaternion: float64 x; float64 y; float64 z; float64 w
geometry_msgs/Pose: Point position; Quaternion orientation
geometry_msgs/PoseStamped: Header header; Pose pose
geometry_msgs/PoseArray: Header header; Pose[] poses
geometry_msgs/PointStamped: Header header; Point point
geometry_msgs/Twist: Vector3 linear; Vector3 angular
geometry_msgs/TwistStamped: Header header; Twist twist
geometry_msgs/Vector3Stamped: Header header; Vector3 vector
geometry_msgs/Transform: Vector3 translation; Quaternion rotation
geometry_msgs/TransformStamped: Header header; string child_frame_id; Transform transform
geometry_msgs/PoseWithCovariance: Pose pose; float64[36] covariance
geometry_msgs/TwistWithCovariance: Twist twist; float64[36] covariance
nav_msgs/Path: Header header; geometry_msgs/PoseStamped[] poses
nav_msgs/GridCells: Header header; float32 cell_width; float32 cell_height; geometry_msgs/Point[] cells
nav_msgs/Odometry: Header header; string child_frame_id; geometry_msgs/PoseWithCovariance pose; geometry_msgs/TwistWithCovariance twist
sensor_msgs/PointField: uint8 INT8=1; uint8 UINT8=2; uint8 INT16=3; uint8 UINT16=4; uint8 INT32=5; uint8 UINT32=6; uint8 FLOAT32=7; uint8 FLOAT64=8; string name; uint32 offset; uint8 datatype; uint32 count
sensor_msgs/PointCloud2: Header header; uint32 height; uint32 width; PointField[] fields; bool is_bigendian; uint32 point_step; uint32 row_step; uint8[] data; bool is_dense
sensor_msgs/LaserScan: Header header; float32 angle_min; float32 angle_max; float32 angle_increment; float32 time_increment; float32 scan_time; float32 range_min; float32 range_max; float32[] ranges; float32[] intensities
sensor_msgs/Range: Header header; uint8 radiation_type; float32 field_of_view; float32 min_range; float32 max_range; float32 range
sensor_msgs/Image: Header header; uint32 height; uint32 width; string encoding; uint8 is_bigendian; uint32 step; uint8[] data
sensor_msgs/CameraInfo: Header header; uint32 height; uint32 width; string distortion_model; float64[] D; float64[9] K; float64[9] R; float64[12] P; uint32 binning_x; uint32 binning_y
visualization_msgs/Marker: uint8 ARROW=0; uint8 CUBE=1; uint8 SPHERE=2; uint8 CYLINDER=3; uint8 LINE_STRIP=4; uint8 LINE_LIST=5; uint8 CUBE_LIST=6; uint8 SPHERE_LIST=7; uint8 POINTS=8; uint8 TEXT_VIEW_FACING=9; uint8 MESH_RESOURCE=10; uint8 TRIANGLE_LIST=11; uint8 ADD=0; uint8 MODIFY=0; uint8 DELETE=2; uint8 DELETEALL=3; Header header; string ns; int32 id; int32 type; int32 action; geometry_msgs/Pose pose; geometry_msgs/Vector3 scale; std_msgs/ColorRGBA color; duration lifetime; bool frame_locked; geometry_msgs/Point[] points; std_msgs/ColorRGBA[] colors; string text; string mesh_resource; bool mesh_use_embedded_materials
visualization_msgs/MarkerArray: Marker[] markers
mavros_msgs/PositionTarget: Header header; uint8 FRAME_LOCAL_NED=1; uint8 coordinate_frame; uint16 type_mask; geometry_msgs/Point position; geometry_msgs/Vector3 velocity; geometry_msgs/Vector3 acceleration_or_force; float32 yaw; float32 yaw_rate
mavros_msgs/Trajectory: uint8 MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS=0; uint8 MAV_TRAJECTORY_REPRESENTATION_BEZIER=1; Header header; uint8 type; PositionTarget point_1; PositionTarget point_2; PositionTarget point_3; PositionTarget point_4; PositionTarget point_5; uint8[5] point_valid; uint16[5] command; float32[5] time_horizon
mavros_msgs/CompanionProcessStatus: Header header; uint8 state; uint8 component
mavros_msgs/State: Header header; bool connected; bool armed; bool guided; bool manual_input; string mode; uint8 system_status
mavros_msgs/Altitude: Header header; float32 monotonic; float32 amsl; float32 local; float32 relative; float32 terrain; float32 bottom_clearance
mavros_msgs/ParamValue: int64 integer; float64 real
mavros_msgs/Param: Header header; string param_id; ParamValue value; uint16 param_index; uint16 param_count
mavros_msgs/Waypoint: uint8 frame; uint16 command; bool is_current; bool autocontinue; float32 param1; float32 param2; float32 param3; float32 param4; float64 x_lat; float64 y_long; float64 z_alt
mavros_msgs/WaypointList: uint16 current_seq; Waypoint[] waypoints
octomap_msgs/Octomap: Header header; bool binary; string id; float64 resolution; int8[] data
"""
SRV = """
mavros_msgs/ParamGet: string param_id --- bool success; ParamValue value
mavros_msgs/SetMode: uint8 base_mode; string custom_mode --- bool mode_sent
"""
PRIM = dict(bool="uint8_t", int8="int8_t", uint8="uint8_t", int16="int16_t", uint16="uint16_t", int32="int32_t",
            uint32="uint32_t", int64="int64_t", uint64="uint64_t", float32="float", float64="double",
            string="std::string", time="ros::Time", duration="ros::Duration")
KNOWN = {}

def parse_fields(pkg, txt):
    consts, fields, deps = [], [], []
    for part in re.split(r"[;\n]", txt):
        part = part.split("#")[0].strip()
        if not part:
            continue
        m = re.match(r"(\S+)\s+(\w+)\s*=\s*(.+)$", part)
        if m:
            consts.append((PRIM[m[1]], m[2], m[3]))
            continue
        t, name = part.split()
        m = re.match(r"([\w/]+)(\[(\d*)\])?$", t)
        base, arr, n = m[1], m[2], m[3]
        if base in PRIM:
            c, init = PRIM[base], ("{}" if base != "string" else "")
        else:
            if base == "Header":
                base = "std_msgs/Header"
            if "/" not in base:
                base = pkg + "/" + base
            deps.append(base)
            c, init = base.replace("/", "::"), ""
        if arr:
            if n:
                c, init = "boost::array<%s, %s>" % (c, n), "{{}}"
            else:
                c, init = "std::vector<%s>" % c, ""
        fields.append((c, name, init))
    return consts, fields, deps

def struct(name, consts, fields):
    s = "struct %s {\n" % name
    for c, n, v in consts:
        s += "  enum : int { %s = %s };\n" % (n, v)
    for c, n, i in fields:
        s += "  %s %s%s;\n" % (c, n, i)
    s += "  typedef boost::shared_ptr<%s> Ptr;\n  typedef boost::shared_ptr<%s const> ConstPtr;\n};\n" % (name, name)
    s += "typedef boost::shared_ptr<%s> %sPtr;\ntypedef boost::shared_ptr<%s const> %sConstPtr;\n" % (name, name, name, name)
    return s

PRE = "#pragma once\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <ros/time.h>\n"

WRITTEN = []

def write(path, txt):
    WRITTEN.append(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == txt:
        return
    open(path, "w").write(txt)

def emit_msg(out, full, txt):
    pkg, name = full.split("/")
    consts, fields, deps = parse_fields(pkg, txt)
    s = PRE + "".join("#include <%s.h>\n" % d for d in dict.fromkeys(deps))
    s += "namespace %s {\n%s}\n" % (pkg, struct(name, consts, fields))
    write("%s/%s.h" % (out, full), s)

def emit_cfg(out, path):
    params, enums = [], []
    class Gen:
        def add(self, name, typ, level, desc, default=None, minimum=None, maximum=None, edit_method=""):
            params.append((name, typ, level, default, minimum, maximum))
        def const(self, name, typ, value, desc):
            return dict(name=name, value=value)
        def enum(self, consts, desc):
            enums.append(consts)
            return repr(consts)
        def add_group(self, *a, **k):
            return self
        def generate(self, pkg, node, name):
            self.res = (pkg, node, name)
            return 0
    g = Gen()
    mod = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
    mod.ParameterGenerator = lambda: g
    for t in ("int_t", "double_t", "bool_t", "str_t"):
        setattr(mod, t, t)
    par = types.ModuleType("dynamic_reconfigure")
    sys.modules["dynamic_reconfigure"] = par
    sys.modules["dynamic_reconfigure.parameter_generator_catkin"] = mod
    try:
        exec(compile(open(path).read(), path, "exec"), {"__name__": "__main__", "exit": lambda *_: None})
    except SystemExit:
        pass
    pkg, node, name = g.res
    ct = dict(int_t="int", double_t="double", bool_t="bool", str_t="std::string")
    def lit(t, v, fb):
        if v is None:
            v = fb
        if t == "str_t":
            return '"%s"' % (v if isinstance(v, str) else "")
        if t == "bool_t":
            return "true" if v else "false"
        if t == "int_t":
            return str(int(v))
        return repr(float(v))
    s = PRE + "namespace %s {\nstruct %sConfig {\n" % (pkg, name)
    for n, t, l, d, mi, ma in params:
        s += "  %s %s = %s;\n" % (ct[t], n, lit(t, d, 0))
    s += "  static %sConfig __getDefault__() { return %sConfig(); }\n" % (name, name)
    s += "  // calls f(name, field, level, min, max)\n  template <class F> void visit(F&& f) {\n"
    for n, t, l, d, mi, ma in params:
        fmi = {"int_t": -2147483648, "double_t": -1e300, "bool_t": 0, "str_t": ""}[t]
        fma = {"int_t": 2147483647, "double_t": 1e300, "bool_t": 1, "str_t": ""}[t]
        s += '    f("%s", %s, %d, %s(%s), %s(%s));\n' % (n, n, l, ct[t], lit(t, mi, fmi), ct[t], lit(t, ma, fma))
    s += "  }\n};\n}\n"
    # the header goes under the catkin package (directory), the namespace is gen.generate's PACKAGE
    cat = os.path.basename(os.path.dirname(os.path.dirname(path)))
    write("%s/%s/%sConfig.h" % (out, cat, name), s)

def main():
    repo, out = sys.argv[1:]
    for line in SPEC.strip().splitlines():
        full, txt = line.split(":", 1)
        emit_msg(out, full, txt)
    for line in SRV.strip().splitlines():
        full, txt = line.split(":", 1)
        pkg, name = full.split("/")
        a, b = txt.split("---")
        ca, fa, da = parse_fields(pkg, a)
        cb, fb, db = parse_fields(pkg, b)
        s = PRE + "".join("#include <%s.h>\n" % d for d in da + db)
        s += "namespace %s {\n%s%sstruct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n}\n" % (
            pkg, struct(name + "Request", ca, fa), struct(name + "Response", cb, fb), name, name, name)
        write("%s/%s.h" % (out, full), s)
    for p in sorted(glob.glob(repo + "/*/msg/*.msg")):
        pkg = p.split("/")[-3]
        emit_msg(out, pkg + "/" + os.path.basename(p)[:-4], open(p).read())
    for p in sorted(glob.glob(repo + "/*/cfg/*.cfg")):
        emit_cfg(out, p)
    # real ROS headers pull each other in generously; everything is force-included instead
    inc = "".join("#include <%s>\n" % os.path.relpath(p, out) for p in WRITTEN)
    pre = "".join("#include <%s>\n" % h for h in (
        "algorithm", "array", "atomic", "cfloat", "chrono", "cmath", "condition_variable", "cstring", "deque", "fstream",
        "functional", "iomanip", "iostream", "limits", "list", "map", "memory", "mutex", "numeric", "queue", "random",
        "set", "sstream", "string", "thread", "tuple", "unordered_map", "unordered_set", "vector", "float.h", "math.h", "stdlib.h",
        "Eigen/Core", "Eigen/Dense", "boost/bind.hpp", "boost/algorithm/string.hpp", "ros/ros.h"))
    write(out + "/rosmock_all.h", "#pragma once\n" + pre + inc)

main()
