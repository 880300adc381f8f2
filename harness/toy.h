#ifndef VERIF_TOY_H
#define VERIF_TOY_H
#include <sym.h>
#include <iDynTree/ModelIO/ModelLoader.h>
#include <iDynTree/Core/VectorDynSize.h>
#include <iDynTree/Core/VectorFixSize.h>
#include <iDynTree/Core/MatrixDynSize.h>
#include <iDynTree/Model/Model.h>
#include <string>

// A floating-base robot with a two-joint left leg, a one-joint right leg; every number is dyadic so that constant folding is exact.
static const char* TOY_URDF = R"(<robot name="toy">
<link name="root_link"><inertial><mass value="2"/><origin xyz="0.25 0.125 0.5" rpy="0 0 0"/><inertia ixx="0.5" ixy="0.0625" ixz="0.03125" iyy="0.75" iyz="0.125" izz="1"/></inertial></link>
<link name="l_thigh"><inertial><mass value="1"/><origin xyz="0.0625 0.125 -0.25" rpy="0 0 0"/><inertia ixx="0.25" ixy="0.03125" ixz="0.0625" iyy="0.5" iyz="0.015625" izz="0.125"/></inertial></link>
<link name="l_foot"><inertial><mass value="0.5"/><origin xyz="0.125 0.03125 -0.125" rpy="0 0 0"/><inertia ixx="0.125" ixy="0.015625" ixz="0.03125" iyy="0.25" iyz="0.0625" izz="0.125"/></inertial></link>
<link name="l_sole"/>
<link name="r_foot"><inertial><mass value="0.5"/><origin xyz="0.0625 -0.125 -0.25" rpy="0 0 0"/><inertia ixx="0.25" ixy="0.0625" ixz="0.015625" iyy="0.125" iyz="0.03125" izz="0.5"/></inertial></link>
<link name="r_sole"/>
<joint name="l_hip" type="revolute"><parent link="root_link"/><child link="l_thigh"/><origin xyz="0.125 0.25 -0.5" rpy="0 0 0"/><axis xyz="0 1 0"/><limit lower="-3" upper="3" effort="100" velocity="10"/></joint>
<joint name="l_knee" type="revolute"><parent link="l_thigh"/><child link="l_foot"/><origin xyz="0.0625 0.03125 -1" rpy="0 0 0"/><axis xyz="1 0 0"/><limit lower="-3" upper="3" effort="100" velocity="10"/></joint>
<joint name="l_sole_j" type="fixed"><parent link="l_foot"/><child link="l_sole"/><origin xyz="0.25 0.125 -0.5" rpy="0 0 0"/></joint>
<joint name="r_hip" type="revolute"><parent link="root_link"/><child link="r_foot"/><origin xyz="0.0625 -0.25 -0.5" rpy="0 0 0"/><axis xyz="0 1 0"/><limit lower="-3" upper="3" effort="100" velocity="10"/></joint>
<joint name="r_sole_j" type="fixed"><parent link="r_foot"/><child link="r_sole"/><origin xyz="0.25 0.125 -1" rpy="0 0 0"/></joint>
</robot>)";

inline iDynTree::Model toyModel() {
    iDynTree::ModelLoader l;
    if (!l.loadModelFromString(TOY_URDF)) { fprintf(stderr, "toy model\n"); abort(); }
    iDynTree::ModelLoader r;
    if (!r.loadReducedModelFromFullModel(l.model(), {"l_hip", "l_knee", "r_hip"})) { fprintf(stderr, "toy reduced model\n"); abort(); }
    return r.model();
}
#endif
