"""Which contracts (module: id prefixes) and which replay harness decide each property."""
PROPS = {
    "C01": dict(modules=["indexlist"], ids=["Indexlist::"], harness="c01.cpp",
                bounded=["Indexlist::getISortArray and destructors: only exercised concretely"]),
    "C02": dict(modules=["indexlist", "workset"], ids=["Bounds::", "Constraints::", "SubjectTo::"], harness="c02.cpp"),
    "C14": dict(modules=["options"], ids=["Options::", "QProblemB::setOptions", "QProblemB::setPrintLevel", "QProblemB::getPrintLevel", "qpOASES_Options_"], harness="c14.cpp",
                extra_src=["interfaces/c/qpOASES_wrapper.cpp"], inc=["interfaces/c"]),
    "C03": dict(modules=["indexlist", "workset", "dense"], ids=["dgemm_", "getNorm", "DenseMatrix::", "SymDenseMat::"], harness="c03.cpp",
                bounded=["DenseMatrix::getNorm (member), getSparseSubmatrix, duplicate/duplicateSym: only exercised concretely"]),
    "C04": dict(modules=["indexlist", "workset", "dense", "sparse"], ids=["SparseMatrix"], harness="c04.cpp",
                bounded=["products with index lists, SparseMatrix::getRowNorm, duplicate/duplicateSym, getSparseSubmatrix, the constructors from a dense array and SymSparseMat::bilinear: only exercised concretely"]),
    "C05": dict(modules=["linalg"], ids=["dpotrf_", "QProblemB::backsolveR", "QProblem::backsolveT", "QProblemB::computeGivens", "QProblemB::applyGivens", "QProblemB::computeCholesky", "QProblem::setupTQfactorisation", "lemma:"], harness="c05.cpp",
                bounded=["that every positive definite matrix is accepted, and the four-argument forwarding overload of backsolveR: only exercised concretely"]),
    "C06": dict(modules=["step"], ids=["QProblemB::performRatioTest", "QProblemB::performStep", "QProblem::performStep", "QProblem::performPlainRatioTest", "lemma:product"], harness="c06.cpp",
                bounded=["performStep with a user constraint product: only exercised concretely"]),
    "C07": dict(modules=["homotopy"], ids=["QProblemB::determineDataShift", "QProblem::determineDataShift", "QProblemB::getRelativeHomotopyLength", "QProblem::getRelativeHomotopyLength", "QProblemB::setupAuxiliaryQP", "QProblem::setupAuxiliaryQP"], harness="c07.cpp", bounded=[]),
    "C08": dict(modules=["kkt"], ids=["getKktViolation", "SolutionAnalysis::getKktViolation", "QProblemB::getWorkingSet", "QProblem::getWorkingSet"], harness="c08.cpp",
                bounded=["the SQProblem overload of SolutionAnalysis::getKktViolation (a cast): only exercised concretely"]),
    "C12": dict(modules=["homotopy", "options"], ids=["QProblemB::performDriftCorrection", "QProblem::performDriftCorrection", "QProblemB::performRamping", "QProblem::performRamping", "QProblemB::updateFarBounds", "QProblem::updateFarBounds", "QProblemB::setOptions"], harness="c12.cpp",
                bounded=["the outer loop over far bounds in hotstart: only exercised concretely"]),
    "C09": dict(modules=["data"], ids=["QProblemB::setupSubjectToType", "QProblem::setupSubjectToType", "QProblemB::areBoundsConsistent", "QProblem::areBoundsConsistent", "QProblemB::setInfeasibilityFlag", "QProblemB::adaptImplicitEqualities"], harness="c09.cpp",
                bounded=["QProblem::updateActivitiesForHotstart, the reports of init and hotstart: only exercised concretely"]),
    "C10": dict(modules=["data"], ids=["QProblemB::set", "QProblem::set", "QProblemB::get", "QProblem::get", "QProblemB::is", "QProblemB::resetCounter", "SubjectTo::getNumberOfType", "Bounds::get", "Constraints::get"],
                not_ids=["QProblemB::setupSubjectToType", "QProblem::setupSubjectToType", "QProblemB::setInfeasibilityFlag"], harness="c10.cpp",
                bounded=["setH, setA from an array, setupQPdata, copies of the working sets: only exercised concretely"]),
    "C13": dict(modules=["solve"], ids=["QProblemB::isCPUtimeLimitExceeded", "QProblemB::solve", "QProblem::solve", "QProblemB::hotstart", "QProblem::hotstart"], harness="c13.cpp",
                bounded=["init (solveInitialQP) and the file variants, termination on the solution of the new QP: only exercised concretely"]),
    "C15": dict(modules=["direction"], ids=["QProblemB::determineStepDirection", "lemma:"], harness="c15.cpp",
                bounded=["QProblem::determineStepDirection and the factor updates of addBound/removeBound/addConstraint/removeConstraint (stated as precondition of the proved direction): only exercised concretely"]),
    "C20": dict(modules=["direction"], ids=["QProblemB::determineStepDirection", "lemma:"], harness="c20.cpp", level="other",
                technique="lemmas over proved contracts (steps keep stationarity; step direction; exit conditions in C13) plus a bounded end-to-end check of the real solver that stands in for the undischarged whole",
                explanation="End-to-end optimality is composed of contracts proved by C05-C07, C09, C12, C13 and C15; the composition over a whole solve (working set changes with their factor updates, rounding) is not discharged. A bounded check of init/hotstart on random QPs stands in for it and decides; it is never counted as proved.",
                rule="random feasible QPs (1-9 variables, 0-5 constraints, definite and semidefinite, absent and equal limits), all classes and presets with random toggles, one init and three hotstarts each; distinct by full data", bounded=["the end-to-end statement itself"]),
}
