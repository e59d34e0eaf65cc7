#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it stays valid)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SAC="include/opengv/sac/implementation/"
p("C01","Robust estimation reports success exactly when this run found a model",
 "A RANSAC, multi-camera RANSAC or LMedS run returns true if and only if at least one drawn sample produced a model during that very run, and then the stored sample and model are one sample drawn in this run and the model computed from exactly that sample. The reported inliers are then exactly those correspondences of the problem whose distance to the stored model is within the threshold, in index order and without repetition; otherwise the run returns false and reports no inliers left over from an earlier run.",
 ["inputs","histories"],"every sample consensus problem (any sampling, model and distance functions), threshold, iteration limit, and history of earlier runs on the same estimator object",
 "The tests run each estimator once per process on well-conditioned random scenes and print the result; they never reach failing samples, empty samples, or a second run on the same object.",
 [SAC+"Ransac.hpp",SAC+"MultiRansac.hpp",SAC+"Lmeds.hpp"],
 [("computeModel main loop",SAC+"Ransac.hpp"),("computeModel main loop",SAC+"MultiRansac.hpp"),("computeModel, inlier selection",SAC+"Lmeds.hpp")],
 [("model_","best sample of the run","include/opengv/sac/SampleConsensus.hpp"),("model_coefficients_","best model of the run","include/opengv/sac/SampleConsensus.hpp"),("inliers_","inliers of the best model","include/opengv/sac/SampleConsensus.hpp")],
 ["return value, model_, model_coefficients_, inliers_ after computeModel"])
p("C02","Robust estimation keeps the best hypothesis and respects its budgets",
 "A RANSAC run keeps a hypothesis whose inlier count is the largest among all hypotheses evaluated in that run (the first such), and an LMedS run keeps one whose median squared distance is the smallest. A run always terminates, evaluates at most one hypothesis beyond the configured maximum number of iterations and skips at most ten times that maximum of failed samples; RANSAC does not stop before either a budget is exhausted, sampling is impossible, or the number of evaluated hypotheses reaches log(1-p)/log(1-w^n) for the best inlier ratio w, sample size n and requested probability p.",
 ["inputs","histories"],"every sequence of samples, models, inlier counts and distances a problem can produce, every probability and iteration limit",
 "The number of iterations and the order of hypothesis qualities is unbounded; the tests see one fixed random sequence per problem and do not look at the loop's decisions.",
 [SAC+"Ransac.hpp",SAC+"MultiRansac.hpp",SAC+"Lmeds.hpp"],
 [("best-so-far update and adaptive iteration bound",SAC+"Ransac.hpp"),("same for the multi-camera problems",SAC+"MultiRansac.hpp"),("median penalty",SAC+"Lmeds.hpp")],
 [("iterations_","hypotheses evaluated in this run","include/opengv/sac/SampleConsensus.hpp")])
p("C03","Samples are distinct members of the index set, of the required size",
 "Every sample handed to a minimal solver by a single- or multi-camera sample consensus problem has exactly the required size and consists of distinct positions of the problem's index set (of the respective camera), or is empty when the set is too small or no acceptable sample was found. Drawing only permutes the internal pool: after any number of draws it still contains exactly the problem's indices, and any position can be drawn into any place of the sample for a suitable random number. Per-camera sample sizes are non-negative, sum to the total the solver needs, and no camera index outside the problem is ever used.",
 ["inputs","histories"],"every index set, sample size, random number sequence and number of earlier draws",
 "Tests draw from one seeded generator over full index sets; duplicates or lost indices only show for specific random values and after many draws.",
 [SAC+"SampleConsensusProblem.hpp",SAC+"MultiSampleConsensusProblem.hpp","src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp","src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp","src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp"],
 [("drawIndexSample partial shuffle",SAC+"SampleConsensusProblem.hpp"),("getSamples",SAC+"SampleConsensusProblem.hpp"),("getSampleSizes random split over cameras","src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp")],
 [("shuffled_indices_","pool of indices being permuted","include/opengv/sac/SampleConsensusProblem.hpp"),("indices_","index set of the problem","include/opengv/sac/SampleConsensusProblem.hpp")])
p("C04","Inlier counting and selection agree with the distances for any index set",
 "For every problem, model and threshold, the number of inliers counted equals the number of inliers selected, and the selected inliers are exactly the problem's indices whose distance is below the threshold, in the order of the index set. Distances are computed one per index, for the correspondence that index names, also when the index set is a proper subset or reordering of the data.",
 ["inputs"],"every index set (single and per camera), distance vector, model and threshold",
 "The tests only use complete, identity-ordered index sets, for which position and index coincide.",
 [SAC+"SampleConsensusProblem.hpp",SAC+"MultiSampleConsensusProblem.hpp","src/sac_problems"],
 [("selectWithinDistance / countWithinDistance",SAC+"SampleConsensusProblem.hpp"),("per-camera versions",SAC+"MultiSampleConsensusProblem.hpp"),("getSelectedDistancesToModel of all problems","src/sac_problems")])
p("C05","Adapters return the data of exactly the addressed correspondence",
 "Every adapter returns, for a correspondence (or camera and correspondence) index, exactly the bearing vector, point, weight, camera offset and camera rotation the user supplied for it, with neutral defaults (unit weight, zero offset, identity rotation) where none exist, and keeps the prior pose it was given. For multi-camera data, conversion between serialized and per-camera indices is a bijection: the serialized order enumerates camera after camera, converting back and forth returns the same index, and both views yield the same data.",
 ["inputs","configurations"],"every adapter type, every number of cameras (also empty ones) and correspondences, every index",
 "Tests build a few fixed layouts with equal numbers of correspondences and never compare data read through two index views.",
 ["src/absolute_pose","src/relative_pose","src/point_cloud","include/opengv/absolute_pose","include/opengv/relative_pose"],
 [("index tables built in the multi adapters","src/relative_pose/NoncentralRelativeMultiAdapter.cpp"),("raw array adapters","src/relative_pose/MANoncentralRelativeMulti.cpp"),("serialized interface of the multi adapter bases","include/opengv/relative_pose/RelativeMultiAdapterBase.hpp")])
p("C06","Solvers given an index list use exactly the listed correspondences",
 "Every pose, triangulation-free alignment and optimisation method called with an index list behaves exactly as if called without one on data containing only the listed correspondences in that order. Correspondences that are not listed never influence the result, and neither does the length of the full data set.",
 ["inputs"],"every method with an index overload, every index list of admissible length (with any order, gaps or repetition), every data set",
 "Tests call the index overloads with a handful of index lists and only print results; no comparison to the same data in other order exists.",
 ["include/opengv/Indices.hpp","src/absolute_pose/methods.cpp","src/relative_pose/methods.cpp","src/point_cloud/methods.cpp"],
 [("Indices view","include/opengv/Indices.hpp"),("loops over indices[i]","src/relative_pose/methods.cpp"),("loops over indices[i]","src/absolute_pose/methods.cpp")])
p("C07","Rotation parameterisations are proper rotations and mutually inverse",
 "Converting any Cayley vector or any non-zero quaternion of unit norm to a matrix yields a proper rotation (orthonormal, determinant +1), and the reduced Cayley form is the same matrix times the common denominator. Converting a rotation matrix to a quaternion or Cayley vector and back reproduces the matrix for every rotation on which the parameterisation is defined (all rotations for quaternions, all except half turns for Cayley), including the identity and rotations about coordinate axes.",
 ["inputs"],"all Cayley vectors, unit quaternions and rotation matrices over the reals",
 "Exactness of algebraic identities over a continuum; tests use random rotations only, which never hit the identity or axis-aligned rotations.",
 ["src/math/cayley.cpp","src/math/quaternion.cpp"],
 [("cayley2rot, cayley2rot_reduced, rot2cayley","src/math/cayley.cpp"),("quaternion2rot, rot2quaternion","src/math/quaternion.cpp")])
p("C08","Point-set alignment returns the optimal proper rotation and translation",
 "For any two matched point sets, three-dimensional alignment returns a proper rotation (determinant +1, also for reflected, planar or noisy data) that maximises the correlation of the centred sets, together with the translation that maps the centroid of the second set to that of the first. For noise-free non-collinear data it therefore returns the exact transformation, independent of order and number of points; the rotation-only solvers inherit this for bearing vectors.",
 ["inputs"],"all point sets of any size of at least three points (two for the rotation-only two-point solver), all index lists",
 "Optimality and properness quantify over all point sets and all N; tests print one random case and no degenerate or reflected one.",
 ["src/math/arun.cpp","src/point_cloud/methods.cpp","src/relative_pose/methods.cpp"],
 [("arun SVD solution with determinant correction","src/math/arun.cpp"),("centroids and cross-covariance","src/math/arun.cpp"),("threept_arun","src/point_cloud/methods.cpp"),("rotationOnly, twopt_rotationOnly","src/relative_pose/methods.cpp")])
p("C09","Triangulation returns the point determined by the two rays",
 "For two viewing rays under a given relative pose, linear-free midpoint triangulation returns the midpoint of the shortest segment between the two (non-parallel) rays expressed in the first frame, and the algebraic triangulation returns the minimiser of the stacked cross-product constraints. For exact bearings of a point in general position both return that point for every relative pose.",
 ["inputs"],"all relative poses, all non-parallel bearing vector pairs and any correspondence index",
 "The identities are over a continuum of poses and rays, including converging and diverging ones; tests compare on a few noisy or noise-free random points by printing.",
 ["src/triangulation/methods.cpp"],
 [("triangulate","src/triangulation/methods.cpp"),("triangulate2","src/triangulation/methods.cpp")])
p("C10","Absolute-pose distances are the reprojection error of the scored pose",
 "The distance assigned to a correspondence by the absolute pose problems (single camera, camera rig, multi-camera) equals one minus the cosine of the angle between the measured bearing vector and the direction of the world point as seen in that camera under the scored pose, taking the camera's own offset and rotation into account. It is therefore zero exactly for a perfect reprojection in front of the camera and grows with the angle up to two behind it; likewise the point cloud distance is the Euclidean distance after applying the scored transformation.",
 ["inputs"],"all poses, camera placements, points, bearing vectors and index lists of any length",
 "Correctness of the score over all camera extrinsics; most tests use scenes where the score's sign, scale or frame errors only change thresholds, and nothing checks the values.",
 ["src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp","src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp","src/sac_problems/point_cloud/PointCloudSacProblem.cpp"],
 [("getSelectedDistancesToModel","src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp"),("getSelectedDistancesToModel","src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp"),("getSelectedDistancesToModel","src/sac_problems/point_cloud/PointCloudSacProblem.cpp")])
p("C11","Relative-pose distances are the two-view reprojection error of the pose",
 "The distance assigned to a correspondence by the relative pose problems equals the sum of the two values one minus cosine of the angle between the measured bearing vector and the reprojection, in each of the two views, of the point triangulated under the scored relative pose, with the cameras' offsets and rotations taken into account; for rotation-only problems it is one minus the cosine of the angle between the rotated bearing vectors. It is zero for exact correspondences of the scored pose, and scoring does not change any prior the eigensolver problem later relies on.",
 ["inputs"],"all relative poses, camera placements, bearing vectors and index lists of any length",
 "Nothing in the tests looks at score values; frame and sign errors in the generalised camera case only shift inlier sets.",
 ["src/sac_problems/relative_pose"],
 [("getSelectedDistancesToModel","src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp"),("getSelectedDistancesToModel","src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp"),("getSelectedDistancesToModel","src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp"),("getSelectedDistancesToModel","src/sac_problems/relative_pose/EigensolverSacProblem.cpp"),("getSelectedDistancesToModel","src/sac_problems/relative_pose/RotationOnlySacProblem.cpp"),("getSelectedDistancesToModel","src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp")])
p("C12","Two-point translation solvers recover the exact translation",
 "Given the true rotation, the two-point absolute solver returns the exact camera position, and the two-point relative solver returns the translation direction with unit length and the sign consistent with the points lying in front of both cameras, for every configuration of two exact correspondences in general position. Applying the known rotation beforehand or letting the solver apply it gives the same result.",
 ["inputs"],"all rotations, translations, and pairs of exact correspondences in general position",
 "An exact-recovery statement over a continuum of configurations; tests print single samples.",
 ["src/absolute_pose/methods.cpp","src/absolute_pose/modules/main.cpp","src/relative_pose/methods.cpp"],
 [("p2p","src/absolute_pose/methods.cpp"),("twopt","src/relative_pose/methods.cpp")])
p("C13","Three-point absolute pose solvers contain the true pose, all rotations proper",
 "For three exact correspondences of a single camera in general position, the true camera pose is among the solutions returned by both minimal three-point solvers. Every solution they return has a proper rotation and the solution list never exceeds four entries per solver.",
 ["inputs"],"all true poses and all triples of non-collinear points in general position",
 "Completeness over the continuum of configurations, including those where intermediate quantities change sign or coordinates coincide; tests print a single random case.",
 ["src/absolute_pose/methods.cpp","src/absolute_pose/modules/main.cpp"],
 [("p3p_kneip_main quartic and back-substitution","src/absolute_pose/modules/main.cpp"),("p3p_gao_main quartic and back-substitution","src/absolute_pose/modules/main.cpp")])
p("C14","Polynomial root finders return every real root",
 "For every cubic with non-zero leading coefficient the closed-form cubic solver, and for every quartic the closed-form quartic solver, return values that include every real root to working accuracy, including polynomials with repeated roots or vanishing intermediate coefficients. For every polynomial with distinct real roots the Sturm-based solver returns each real root exactly once, within its tolerance, and nothing else.",
 ["inputs"],"all real polynomials of degree up to four (closed form) or any degree with simple roots (Sturm)",
 "Tests try two polynomials; special coefficient patterns such as missing terms, repeated roots or roots on the initial bound are not covered.",
 ["src/math/roots.cpp","src/math/Sturm.cpp"],
 [("o3_roots","src/math/roots.cpp"),("o4_roots","src/math/roots.cpp"),("Sturm chain, bracketing and bisection","src/math/Sturm.cpp")])
p("C15","Essential-matrix solvers encode exactly the epipolar constraint",
 "Every row the linear and five-point solvers stack equals the epipolar constraint f1^T E f2 of one listed correspondence under one consistent arrangement of the matrix entries, so that true essential matrices of exact data are in the solution space for every scene. The eight-point result has rank at most two, the seven-point results satisfy the determinant constraint, and the five-point solvers' coefficient matrices represent exactly the ten cubic constraints (zero determinant and the trace constraint) on the null-space combination.",
 ["inputs"],"all sets of bearing vector pairs of any admissible size, all null-space bases",
 "The constraint coefficients are degree-3 polynomials in 36 inputs with hundreds of terms; the tests sample single scenes and print.",
 ["src/relative_pose/methods.cpp","src/relative_pose/modules/fivept_nister/modules.cpp","src/relative_pose/modules/fivept_stewenius/modules.cpp","src/relative_pose/modules/main.cpp"],
 [("sevenpt, eightpt, fivept row construction","src/relative_pose/methods.cpp"),("composeA","src/relative_pose/modules/fivept_nister/modules.cpp"),("composeA","src/relative_pose/modules/fivept_stewenius/modules.cpp")])
p("C16","Essential matrices are decomposed into the pose that explains the data",
 "The relative pose obtained from essential matrices in the central relative pose problem always has a proper rotation and, for exact data in front of both cameras, equals the true rotation with the true translation direction. Among the candidate rotations and translations of all candidate matrices the one with the smallest total reprojection error over the sample is chosen.",
 ["inputs"],"all relative poses with non-zero translation and all samples in general position, every choice of essential-matrix algorithm",
 "Sign and handedness choices depend on the numerical decomposition; tests see a few random scenes.",
 ["src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp"],
 [("computeModelCoefficients decomposition and disambiguation","src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp")])
p("C17","The eigensolver cost matrices and their derivatives are exact",
 "The matrix the eigenvalue-based relative pose solvers build from the summed correspondences equals, for every rotation, the sum of the outer products of the epipolar plane normals (for the generalised camera: of the full generalised epipolar constraint), scaled by the squared common denominator of the rotation. The derivatives handed to the minimisation are the exact derivatives of that matrix and of its smallest eigenvalue.",
 ["inputs"],"all sets of correspondences of any size, all weights, all Cayley vectors",
 "The identities involve thousands of hand-expanded terms over a continuum of inputs; the tests only check that the solver ends near the solution in one scene.",
 ["src/relative_pose/modules/eigensolver/modules.cpp","src/relative_pose/modules/ge/modules.cpp","src/relative_pose/methods.cpp"],
 [("composeM, composeMwithJacobians, getSmallestEVwithJacobian","src/relative_pose/modules/eigensolver/modules.cpp"),("composeG, composeGwithJacobians","src/relative_pose/modules/ge/modules.cpp"),("summation terms","src/relative_pose/methods.cpp")])
p("C18","Gauss-Jordan elimination preserves the solution set and reaches reduced form",
 "Reducing a matrix of any size by the library's elimination routine, with any exit row, only performs invertible row operations (row exchanges, divisions by a pivot that is zero only if the whole remaining column is, subtraction of multiples of the working row), so the row space and the solutions of the represented system are unchanged. When the leading square part is non-singular, that part ends up upper triangular with unit diagonal and is the identity in all rows from the exit row on. Entries whose magnitude does not exceed 1e-10 count as zero.",
 ["inputs"],"all real matrices with at least as many columns as rows, all sizes and exit rows",
 "Unbounded matrix sizes and pivoting paths; tests exercise the routine only indirectly through one solver.",
 ["src/math/gauss_jordan.cpp"],
 [("gauss_jordan","src/math/gauss_jordan.cpp")])
p("C19","Non-minimal absolute pose solvers minimise their stated cost",
 "The quadratic form the universal PnP solver builds equals, for every rotation, the sum of squared object-space residuals of all listed correspondences with the optimal translation substituted, and the translation returned is the optimal one for the returned rotation. The control-point based solvers express every point by weights that sum to one and reproduce the point exactly, and assemble rows that vanish on the true solution, so exact data give the exact pose.",
 ["inputs"],"all rigs, points, bearing vectors, numbers of correspondences and rotations",
 "Sums over any number of correspondences and identities over all rotations; tests print one noise level and scene.",
 ["src/absolute_pose/methods.cpp","src/absolute_pose/modules/main.cpp","src/absolute_pose/modules/Epnp.cpp"],
 [("upnp_fill_s, fill_M, upnp assembly","src/absolute_pose/methods.cpp"),("gpnp barycentric coordinates and rows","src/absolute_pose/methods.cpp"),("epnp","src/absolute_pose/modules/Epnp.cpp")])
p("C20","Nonlinear refinement minimises the scoring distance and returns a rotation",
 "The residual minimised by every nonlinear refinement equals, correspondence by correspondence, the reprojection distance used for inlier scoring, as a function of translation and Cayley parameters, one residual per listed correspondence. Whatever the minimiser returns, the refined transformation has a proper rotation, and refinement started at the exact solution of exact data returns that solution.",
 ["inputs"],"all adapters, index lists of any length, starting values and minimiser outcomes",
 "The residual must be right at every parameter value the minimiser visits; tests print one converged result.",
 ["src/absolute_pose/methods.cpp","src/relative_pose/methods.cpp","src/point_cloud/methods.cpp","include/opengv/OptimizationFunctor.hpp"],
 [("OptimizeNonlinearFunctor1 of absolute, relative and point cloud methods","src/absolute_pose/methods.cpp"),("residuals","src/relative_pose/methods.cpp"),("residuals","src/point_cloud/methods.cpp")])
p("C21","Generalised-camera minimal solvers contain the true pose",
 "For exact correspondences of a camera rig in general position, the generalised three-point absolute solver returns the true body pose among its solutions and the six-point relative solver returns the true rotation among its solutions; so does the five-point rotation solver for a single camera pair. Solutions are proper rotations.",
 ["inputs"],"all rigs, poses and point configurations in general position",
 "Completeness of elimination templates with thousands of coefficients over a continuum of inputs.",
 ["src/absolute_pose/modules/gp3p","src/relative_pose/modules/sixpt","src/relative_pose/modules/fivept_kneip","src/absolute_pose/modules/main.cpp","src/relative_pose/modules/main.cpp"],
 [("gp3p_main and elimination template","src/absolute_pose/modules/main.cpp"),("sixpt action matrix","src/relative_pose/modules/sixpt/modules2.cpp"),("fivept_kneip elimination template","src/relative_pose/modules/fivept_kneip/code.cpp")])
p("C22","The robust problems feed solvers and return body-frame poses consistently",
 "The model a robust absolute or relative pose problem computes from a sample equals the pose the selected solver returns for exactly that sample, expressed in the frame the scoring uses: for camera rigs the body frame even when a central solver is applied to one camera. When a solver returns several candidates, the one with the smallest summed distance over the sample's extra points (or all) is chosen, and an empty candidate list is reported as failure.",
 ["inputs","configurations"],"all samples, rigs, algorithms selectable on the problem and numbers of candidates",
 "Candidate selection and frame transformations depend on data-dependent candidate orders; tests only print the final refined result.",
 ["src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp","src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp","src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp","src/sac_problems/point_cloud/PointCloudSacProblem.cpp"],
 [("computeModelCoefficients","src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp"),("computeModelCoefficients","src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P))
