import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
SH='''#!/bin/bash
# run in the repository after the build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo/python" LD_LIBRARY_PATH="$repo/.libs" timeout 120 python3 "$here/demo.py"
'''
def py(bid,prop,edits,demo,needs,breaks): mk(bid,prop,edits,None,needs,breaks,sh=SH,extra={'demo.py':demo})
M='python/amino/mat.py'; T='python/amino/tf.py'; S='python/amino/scenegraph.py'; K='python/amino/kinematics.py'; C='python/amino/collision.py'
py('P29-scalar-minus','P29',[(M,'            return self.__neg__().increment(other)','            return self.__imul__(-1).increment(other)')],
'''from amino import DVec
v = DVec([1, 2, 3])
d = 1.0 - v
assert list(d) == [0, -1, -2] and list(v) == [1, 2, 3], (str(d), str(v))
''',"a number minus a vector that is used again afterwards","the operand is overwritten with the result")
py('P29-operand','P29',[(T,'''        if is_scalar(other):
            return Quat(self).__imul__(other)

        h = Quat()
        libamino.aa_tf_qmul(Quat.ensure(other), self, h)''','''        if is_scalar(other):
            return self.__imul__(other)

        h = Quat()
        libamino.aa_tf_qmul(Quat.ensure(other), self, h)''')],
'''from amino import Quat
q = Quat([0.5, 0.5, 0.5, 0.5])
p = 2.0 * q
assert abs(p.w - 1) < 1e-12 and abs(q.w - 0.5) < 1e-12, (p, q)
''',"a number times a quaternion that is used again afterwards","the operand is scaled as well")
py('P30-stale-set','P30',[(C,'''            collision_set.clear()
            cl_set_ptr''','''            cl_set_ptr''')],
'''from amino import SceneGraph, SceneFK, SceneCollision, Geom
sg = SceneGraph()
g = Geom.sphere({"collision": True}, 0.5)
sg.add_frame_prismatic("", "a", geom=g, axis=[1, 0, 0])
sg.add_frame_fixed("", "b", geom=Geom.sphere({"collision": True}, 0.5))
sg.init()
cl = SceneCollision(sg)
fk = SceneFK(sg)
s = cl.collision_set()
fk.config = [0.2]
assert cl.check(fk, s) and s["a", "b"]
fk.config = [3.0]
assert not cl.check(fk, s) and not s["a", "b"], "the collision of the earlier check is still in the set"
''',"one collision set used for two checks, the first with a collision that the second does not have","pairs that do not touch are reported")
py('P30-leftover-velocity','P30',[(K,'''        else:
            dx.zero()
''','''        elif self._tf_ref is None:
            dx.zero()
''')],
'''from amino import SceneGraph, SceneFK, SceneDK
from amino import Quat, QuatTrans
sg = SceneGraph()
sg.add_frame_revolute("", "a", axis=[0, 0, 1])
sg.add_frame_fixed("a", "b", tf=(1, [1, 0, 0]))
sg.init()
fk = SceneFK(sg)
fk.config = [0.3]
ref = QuatTrans(fk["b"])
fk.config = [0.0]
dk = SceneDK(sg["":"b"], fk)
dk.ref_tf = ref
a = dk.solve_vel()[0]
b = dk.solve_vel()[0]
assert abs(a - b) < 1e-9, (a, b)
''',"two solutions from one object with a pose reference only","the velocity of the earlier solution is added")
py('P30-alias-reference','P30',[(K,'''        """Set the reference transformation"""
        self._tf_ref = QuatTrans(tf_ref)''','''        """Set the reference transformation"""
        self._tf_ref = QuatTrans.ensure(tf_ref)''')],
'''from amino import SceneGraph, SceneIK, QuatTrans, Quat, Vec3
sg = SceneGraph()
sg.add_frame_prismatic("", "a", axis=[1, 0, 0], limits=(-2, 2))
sg.init()
ik = SceneIK(sg["":"a"])
t = QuatTrans((Quat(1), Vec3([0.5, 0, 0])))
ik.ref_tf = t
t.trans = Vec3([-0.5, 0, 0])
ik.restart_time = 0.1
ik.set_seed([0.4])
r = ik.solve()
assert r is not None and abs(r[0] - 0.5) < 1e-2, str(r)
''',"the pose given as reference is changed by its owner before the solution is asked for","another problem is solved")
py('P30-scatter-keep','P30',[(S,'''            elif len(vector) != self.config_count:
                raise IndexError()
            for key in config:''','''            elif len(vector) != self.config_count:
                raise IndexError()
            elif len(config) > 1:
                vector.zero()
            for key in config:''')],
'''from amino import SceneGraph, SceneFK
sg = SceneGraph()
for n in "abc":
    sg.add_frame_prismatic("", n, axis=[1, 0, 0])
sg.init()
fk = SceneFK(sg)
fk.config = {"a": 1.0, "b": 2.0, "c": 3.0}
fk.config = {"a": 4.0}
fk.config = {"b": 5.0, "c": 6.0}
assert abs(fk["a"].trans.x - 4.0) < 1e-9, fk["a"]
''',"a dictionary with several, but not all, of the configuration variables","the variables that were not named go back to zero")
