#!/usr/bin/env python3
"""Generate ROS 1 style C++ message headers (plain structs) from .msg/.srv files: the standard messages embedded here and
every .msg/.srv of the repository's current tree."""
import os, re, sys, glob

STD = {
 'std_msgs/Header': 'uint32 seq\ntime stamp\nstring frame_id',
 'std_msgs/MultiArrayDimension': 'string label\nuint32 size\nuint32 stride',
 'std_msgs/MultiArrayLayout': 'std_msgs/MultiArrayDimension[] dim\nuint32 data_offset',
 'std_msgs/Float64MultiArray': 'std_msgs/MultiArrayLayout layout\nfloat64[] data',
 'geometry_msgs/Point': 'float64 x\nfloat64 y\nfloat64 z',
 'geometry_msgs/Vector3': 'float64 x\nfloat64 y\nfloat64 z',
 'geometry_msgs/Quaternion': 'float64 x\nfloat64 y\nfloat64 z\nfloat64 w',
 'geometry_msgs/Pose': 'geometry_msgs/Point position\ngeometry_msgs/Quaternion orientation',
 'geometry_msgs/PoseStamped': 'std_msgs/Header header\ngeometry_msgs/Pose pose',
 'geometry_msgs/PoseWithCovariance': 'geometry_msgs/Pose pose\nfloat64[36] covariance',
 'geometry_msgs/PoseWithCovarianceStamped': 'std_msgs/Header header\ngeometry_msgs/PoseWithCovariance pose',
 'geometry_msgs/Transform': 'geometry_msgs/Vector3 translation\ngeometry_msgs/Quaternion rotation',
 'geometry_msgs/TransformStamped': 'std_msgs/Header header\nstring child_frame_id\ngeometry_msgs/Transform transform',
 'geometry_msgs/Twist': 'geometry_msgs/Vector3 linear\ngeometry_msgs/Vector3 angular',
 'geometry_msgs/TwistWithCovariance': 'geometry_msgs/Twist twist\nfloat64[36] covariance',
 'nav_msgs/Odometry': 'std_msgs/Header header\nstring child_frame_id\ngeometry_msgs/PoseWithCovariance pose\ngeometry_msgs/TwistWithCovariance twist',
 'nav_msgs/Path': 'std_msgs/Header header\ngeometry_msgs/PoseStamped[] poses',
 'sensor_msgs/RegionOfInterest': 'uint32 x_offset\nuint32 y_offset\nuint32 height\nuint32 width\nbool do_rectify',
 'sensor_msgs/CameraInfo': 'std_msgs/Header header\nuint32 height\nuint32 width\nstring distortion_model\nfloat64[] D\nfloat64[9] K\nfloat64[9] R\nfloat64[12] P\nuint32 binning_x\nuint32 binning_y\nsensor_msgs/RegionOfInterest roi',
 'sensor_msgs/FluidPressure': 'std_msgs/Header header\nfloat64 fluid_pressure\nfloat64 variance',
 'sensor_msgs/Image': 'std_msgs/Header header\nuint32 height\nuint32 width\nstring encoding\nuint8 is_bigendian\nuint32 step\nuint8[] data',
 'sensor_msgs/Imu': 'std_msgs/Header header\ngeometry_msgs/Quaternion orientation\nfloat64[9] orientation_covariance\ngeometry_msgs/Vector3 angular_velocity\nfloat64[9] angular_velocity_covariance\ngeometry_msgs/Vector3 linear_acceleration\nfloat64[9] linear_acceleration_covariance',
 'sensor_msgs/PointField': 'uint8 INT8=1\nuint8 UINT8=2\nuint8 INT16=3\nuint8 UINT16=4\nuint8 INT32=5\nuint8 UINT32=6\nuint8 FLOAT32=7\nuint8 FLOAT64=8\nstring name\nuint32 offset\nuint8 datatype\nuint32 count',
 'sensor_msgs/PointCloud2': 'std_msgs/Header header\nuint32 height\nuint32 width\nsensor_msgs/PointField[] fields\nbool is_bigendian\nuint32 point_step\nuint32 row_step\nuint8[] data\nbool is_dense',
}
STD_SRV = {'std_srvs/Empty': '---'}
PRIM = {'bool': 'uint8_t', 'int8': 'int8_t', 'uint8': 'uint8_t', 'byte': 'int8_t', 'char': 'uint8_t', 'int16': 'int16_t',
        'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t', 'int64': 'int64_t', 'uint64': 'uint64_t',
        'float32': 'float', 'float64': 'double', 'string': 'std::string', 'time': 'ros::Time', 'duration': 'ros::Duration'}

def fields(text, pkg):
    out, consts = [], []
    for line in text.splitlines():
        line = line.split('#')[0].strip()
        if not line:
            continue
        m = re.match(r'^([\w/]+)(\[(\d*)\])?\s+(\w+)\s*(=\s*(.+))?$', line)
        if not m:
            raise SystemExit('cannot parse message line: ' + line)
        typ, arr, n, name, const = m.group(1), m.group(2), m.group(3), m.group(4), m.group(6)
        dep = None
        if typ in PRIM:
            cpp = PRIM[typ]
        else:
            if typ == 'Header':
                typ = 'std_msgs/Header'
            if '/' not in typ:
                typ = pkg + '/' + typ
            dep = typ
            cpp = '::' + typ.replace('/', '::')
        if const is not None:
            consts.append((name, const))
            continue
        if arr:
            cpp = 'boost::array<%s, %s>' % (cpp, n) if n else 'std::vector<%s>' % cpp
        out.append((cpp, name, dep, bool(arr and n)))
    return out, consts

def struct(pkg, name, text):
    fs, consts = fields(text, pkg)
    deps = sorted({f[2] for f in fs if f[2]})
    body = ''.join('    %s %s;\n' % (f[0], f[1]) for f in fs)
    init = ''.join((', ' if i else ' : ') + '%s()' % f[1] for i, f in enumerate(fs))
    fills = ''.join(' %s.assign(0);' % f[1] for f in fs if f[3] and not f[2] and 'string' not in f[0])
    cs = ''.join('    enum { %s = %s };\n' % c for c in consts)
    eq = ' && '.join('a.%s == b.%s' % (f[1], f[1]) for f in fs) or 'true'
    return deps, '''namespace %s {
struct %s {
%s    %s()%s {%s }
%s    typedef boost::shared_ptr<%s> Ptr;
    typedef boost::shared_ptr<%s const> ConstPtr;
};
typedef boost::shared_ptr<%s> %sPtr;
typedef boost::shared_ptr<%s const> %sConstPtr;
inline bool operator==(const %s& a, const %s& b) { (void)a; (void)b; return %s; }
inline bool operator!=(const %s& a, const %s& b) { return !(a == b); }
}
''' % (pkg, name, cs, name, init, fills, body, name, name, name, name, name, name, name, name, eq, name, name)

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)

def header(deps, body):
    return ('#pragma once\n#include <ros/time.h>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include '
            '<boost/make_shared.hpp>\n#include <cstdint>\n#include <string>\n#include <vector>\n' +
            ''.join('#include <%s.h>\n' % d for d in deps) + body)

def main(repo, out):
    msgs, srvs = dict(STD), dict(STD_SRV)
    for f in sorted(glob.glob(repo + '/*/msg/*.msg')):
        msgs[f.split('/')[-3] + '/' + os.path.basename(f)[:-4]] = open(f).read()
    for f in sorted(glob.glob(repo + '/*/srv/*.srv')):
        srvs[f.split('/')[-3] + '/' + os.path.basename(f)[:-4]] = open(f).read()
    for full, text in msgs.items():
        pkg, name = full.split('/')
        deps, body = struct(pkg, name, text)
        if full == 'sensor_msgs/Image':
            deps = deps + ['sensor_msgs/image_encodings']
        write('%s/%s.h' % (out, full), header(deps, body))
    for full, text in srvs.items():
        pkg, name = full.split('/')
        req, res = re.split(r'^---\s*$', text, maxsplit=1, flags=re.M)
        d1, b1 = struct(pkg, name + 'Request', req)
        d2, b2 = struct(pkg, name + 'Response', res)
        write('%s/%s.h' % (out, full), header(sorted(set(d1 + d2)), b1 + b2 + '''namespace %s {
struct %s {
    typedef %sRequest Request;
    typedef %sResponse Response;
    Request request;
    Response response;
};
}
''' % (pkg, name, name, name)))

if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
