#pragma once
// Declarations (no bodies) of the part of qpOASES 3.0's QProblem that /repo/qpsolver uses.  qpOASES is
// not installed here; the methods are templates on the real type because qpOASES' real_t may be
// configured as float or double.
namespace qpOASES {
typedef double real_t;
enum returnValue {
  TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO, RET_INDEX_OUT_OF_BOUNDS,
  RET_INVALID_ARGUMENTS, RET_ERROR_UNDEFINED, RET_WARNING_UNDEFINED, RET_INFO_UNDEFINED,
  RET_INIT_FAILED = 33, RET_INIT_FAILED_TQ, RET_INIT_FAILED_CHOLESKY, RET_INIT_FAILED_HOTSTART,
  RET_INIT_FAILED_INFEASIBILITY, RET_INIT_FAILED_UNBOUNDEDNESS, RET_INIT_FAILED_REGULARISATION,
  RET_INIT_SUCCESSFUL, RET_OBTAINING_WORKINGSET_FAILED, RET_SETUP_WORKINGSET_FAILED,
  RET_SETUP_AUXILIARYQP_FAILED, RET_NO_EXTERN_SOLVER, RET_QP_UNBOUNDED, RET_QP_INFEASIBLE,
  RET_QP_NOT_SOLVED, RET_QP_SOLVED, RET_UNABLE_TO_SOLVE_QP, RET_INITIALISATION_STARTED,
  RET_HOTSTART_FAILED, RET_HOTSTART_FAILED_TO_INIT, RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED,
  RET_ITERATION_STARTED, RET_SHIFT_DETERMINATION_FAILED, RET_STEPDIRECTION_DETERMINATION_FAILED,
  RET_STEPLENGTH_DETERMINATION_FAILED, RET_OPTIMAL_SOLUTION_FOUND, RET_HOMOTOPY_STEP_FAILED,
  RET_HOTSTART_STOPPED_INFEASIBILITY, RET_HOTSTART_STOPPED_UNBOUNDEDNESS,
  RET_WORKINGSET_UPDATE_FAILED, RET_MAX_NWSR_REACHED
};
enum PrintLevel { PL_TABULAR = -2, PL_NONE = 0, PL_LOW = 1, PL_MEDIUM = 2, PL_HIGH = 3 };
enum BooleanType { BT_FALSE, BT_TRUE };
enum QProblemStatus { QPS_NOTINITIALISED, QPS_PREPARINGAUXILIARYQP, QPS_AUXILIARYQPSOLVED,
                      QPS_PERFORMINGHOMOTOPY, QPS_HOMOTOPYQPSOLVED, QPS_SOLVED };
class Options {
public:
  Options();
  returnValue setToDefault();
  returnValue setToReliable();
  returnValue setToMPC();
  returnValue setToFast();
  returnValue ensureConsistency();
  PrintLevel printLevel;
  BooleanType enableRegularisation, enableFlippingBounds, enableEqualities, enableRamping, enableFarBounds;
  int numRegularisationSteps, numRefinementSteps;
  double terminationTolerance, boundTolerance;
};
class QProblem {
public:
  QProblem(int nV, int nC);
  returnValue setPrintLevel(PrintLevel l);
  template <class R>
  returnValue hotstart(const R* H, const R* g, const R* A, const R* lb, const R* ub, const R* lbA,
                       const R* ubA, int& nWSR, double* cputime = 0);
  template <class R>
  returnValue hotstart(const R* g, const R* lb, const R* ub, const R* lbA, const R* ubA, int& nWSR,
                       double* cputime = 0);
  template <class R>
  returnValue init(const R* H, const R* g, const R* A, const R* lb, const R* ub, const R* lbA,
                   const R* ubA, int& nWSR, double* cputime = 0);
  template <class R> returnValue getPrimalSolution(R* xOpt) const;
  template <class R> returnValue getDualSolution(R* yOpt) const;
  returnValue reset();
  double getObjVal() const;
  returnValue setOptions(const Options& o);
  Options getOptions() const;
  int getNV() const;
  int getNC() const;
  QProblemStatus getStatus() const;
  bool isInitialised() const;
  bool isSolved() const;
  bool isInfeasible() const;
  bool isUnbounded() const;
};
}
