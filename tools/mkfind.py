import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def fixed(prop,commit,what): return dict(property=prop,status="fixed",commit=commit,what=what,record="fixed: property=%s %s %s"%(prop,commit,what))
def known(prop,entry,label,what): return dict(property=prop,status="known",entry=entry,label=label,what=what)
F=[
 fixed("C01","d914957","setSparsityInfo kept the values array allocated for the previous sparsity (out-of-bounds access after re-pointing a matrix to a larger sparsity)"),
 fixed("C02","d877ab9","a block matrix made from another's sparsity reported twice the number of rows"),
 fixed("C04","eeaf2d2","the coordinate text writer left std::scientific set on the caller's stream"),
 fixed("C06","35be87a","assigning a dMat to itself zeroed it"),
 fixed("C04","18eb54b","vectors were written with 6 significant digits, so a dump did not compare equal to its own model"),
 fixed("C09","abdbd35","Element::assembleM added the element mass matrix to the damping matrix"),
 fixed("C12","800b35a","setStartTime did not move the current time, so an analysis with a non-zero start time ran from 0"),
 fixed("C13","67952a0","the velocity update swapped the weights of the old and the new acceleration (visible for delta != 0.5)"),
 fixed("C13","a847352","prescribed values had no effect on the free equations of a transient analysis"),
 fixed("C13","1770c08","rounding of the accumulated time dropped the last time step for some step counts (e.g. time1=0.3, 3 steps)"),
 fixed("C17","18c4840","Material::Ci returned a reference to a dead local variable for an unknown constant name"),
 fixed("C17","af9fa1b","the material created as Mooney-Rivlin reported its name as Money-Rivlin"),
 fixed("C18","1a334d5","post-processors, MPC collections and materials were deleted through a base class without virtual destructor (leak, undefined behaviour)"),
 fixed("C18","a444d18","deleteMpcs left the deleted pointers in the list: deleting the mesh and then the storage freed them twice"),
 fixed("C18","1f2b0e0","a second solution on the same storage counted the constrained DoFs twice and leaked the matrices"),
 fixed("C18","313e9ea","PostProcessor::getStatus printed the active flag as the failed flag"),
 fixed("C20","f7b68de","TRIANGLE4 plane stress stiffness was multiplied by (1-my^2) instead of divided"),
 fixed("C20","7778e74","TRIANGLE4 results accumulated over repeated updates"),
 fixed("C21","eb13c77","TETRA0 added the thermal strains again on every assembly"),
 fixed("C21","4e3c87a","TETRA0 stresses included the thermal strains"),
 fixed("C21","8b4a6fd","TETRA0 queries ignored the scale argument"),
 fixed("C21","d21d204","TETRA1 assembled a negative conductivity matrix"),
 fixed("C21","4b3a0c4","TETRA1 temperature gradient had the opposite sign"),
 known("C21","H_again","TETRA0 load after an update","TETRA0 keeps initial and computed strains/stresses in the same fields, so assembling again after update() loads the element with its own results (separating them needs new fields in the interface)"),
 known("C21","H_query_E_meaning","TETRA0 query E is the strain","TETRA0::getTensor answers query E (strain) with the stresses and query C with the strains; TETRA0_test.cpp of the repository relies on E giving stresses"),
 fixed("C23","204aca5","INTER0 tangent basis degenerated for normals in the direction (0,1,1): NaN stiffness"),
 fixed("C23","8ad6af5","INTER0 strains query ignored the scale"),
 fixed("C23","a7c9eb8","INTER3 tensor queries ignored the scale and had no return value for other queries"),
 fixed("C23","120f7f4","INTER3 averaged strains and stresses were integrals, not divided by the area"),
 fixed("C24","098cea4","PLANE41 invariants query wrote past its argument"),
 fixed("C24","8bf2aab","PLANE41 Cauchy stress used the transposed deformation gradient and ignored the scale"),
 fixed("C24","f26e5fa","SOLID81 PK2 and Cauchy stress contained the pressure part twice"),
 fixed("C24","77b550f","SOLID81 deviatoric energy was computed from the full invariants"),
 fixed("C25","40ec4d8","sfirstNotBlank read outside of a blank string"),
 fixed("C26","70baedd","CE records with one or more than two terms were misread"),
 fixed("C27","7252f30","compressNumbers left permuted node numbers and dereferenced end() of an empty mesh"),
 fixed("C27","c434b0d","getCellsByAttribute read past an empty list for an unknown attribute"),
 fixed("C28","e7caa59","automatic choice of reaction DoFs dereferenced unused DoFs and accepted free ones"),
 fixed("C28","1454772","ReactionProcessor without nodes or without a writable file had no result lists and crashed"),
 fixed("C29","29104bd","tensor results in vtk files started from uninitialized values"),
 fixed("C30","222c55a","reference curve reader dropped consecutive equal values (and a first value of -1)"),
 fixed("C30","dd43b9e","option values like -.5 were taken for the next option"),
 fixed("C30","e9c30df","getFileNameFromPath took a dot in a directory name for an extension"),
 fixed("C30","5e02a3e","unknown material or too few constants crashed the program"),
 fixed("C30","6f405de","-rigidbody master node was not renumbered with the mesh"),
 fixed("C31","71020eb","a PARDISO solver that was never used released uninitialized data"),
 fixed("C31","6a4a240","the symbolic factorization of one matrix was used for the next one with another sparsity"),
 fixed("C33","d845111","constraint collections added from Python were destroyed twice"),
 fixed("C25","e2ee97b","read_tokens threw or cut tokens longer than 32767 characters, del_spaces never ended on more than 65535 blanks"),
 fixed("C30","c3c4ec7","the log named the first DoF labels instead of the labels of the rigid body's DoFs"),
 fixed("C34","0f8c104","a dynamic matrix (dMat::print) was printed to the standard output instead of the given stream"),
 fixed("C34","8819ff9","text of a node with large coordinates (Node::toString) was cut at 100 characters"),
 fixed("C26","2dbaffd","node and element components with more than 65535 records could not be read"),
 fixed("C13","c0888da","a transient analysis with 65535 time steps never ended"),
]
json.dump(F,open(H+"/known_findings.json","w"),indent=1)
