#pragma once
#include "DesignVariable.hpp"
#include "ErrorTerm.hpp"
#include <set>
namespace aslam { namespace backend {
class OptimizationProblemBase {
 public:
  virtual ~OptimizationProblemBase() {}
  size_t numDesignVariables() const { return numDesignVariablesImplementation(); }
  DesignVariable* designVariable(size_t i) { return designVariableImplementation(i); }
  const DesignVariable* designVariable(size_t i) const { return designVariableImplementation(i); }
  size_t numErrorTerms() const { return numErrorTermsImplementation(); }
  ErrorTerm* errorTerm(size_t i) { return errorTermImplementation(i); }
  const ErrorTerm* errorTerm(size_t i) const { return errorTermImplementation(i); }
  void getErrors(const DesignVariable* dv, std::set<ErrorTerm*>& out) { getErrorsImplementation(dv, out); }
  size_t numNonSquaredErrorTerms() const { return numNonSquaredErrorTermsImplementation(); }
  ScalarNonSquaredErrorTerm* nonSquaredErrorTerm(size_t i) { return nonSquaredErrorTermImplementation(i); }
  const ScalarNonSquaredErrorTerm* nonSquaredErrorTerm(size_t i) const { return nonSquaredErrorTermImplementation(i); }
 protected:
  virtual size_t numDesignVariablesImplementation() const = 0;
  virtual DesignVariable* designVariableImplementation(size_t) = 0;
  virtual const DesignVariable* designVariableImplementation(size_t) const = 0;
  virtual size_t numErrorTermsImplementation() const = 0;
  virtual ErrorTerm* errorTermImplementation(size_t) = 0;
  virtual const ErrorTerm* errorTermImplementation(size_t) const = 0;
  virtual void getErrorsImplementation(const DesignVariable*, std::set<ErrorTerm*>&) = 0;
  virtual size_t numNonSquaredErrorTermsImplementation() const = 0;
  virtual ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) = 0;
  virtual const ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) const = 0;
  virtual void getNonSquaredErrorsImplementation(const DesignVariable*, std::set<ScalarNonSquaredErrorTerm*>&) = 0;
};
}}
