/* Issues subproblem and lower-bound queries to one solver.
 *
 * usage: probe COMMANDS -parameter value ...
 * Every command prints one line:
 *   s                        a complete solve;  prints "s"
 *   i R                      (re)initialise with reset flag R;  prints "i"
 *   q B f v .. d k a c       solve the branch of B (feature, side) pairs within
 *                            d and k; the upper bound is a * x + c, where x is
 *                            the answer of a second solver (a < 0: no bound)
 *   l B f v .. d k           lower bound of the branch
 *   t N B f v .. d k         like q without bound, but the time limit passes at
 *                            the Nth look at the clock;  prints "t"
 *   u N                      a complete solve stopped in that way;  prints "u"
 * q prints "q N UB value.." and l "l N value.." for N instances: values of
 * multi-objective tasks are a count and pairs, infeasible is "none".
 * The first line gives the orientation of every feature inside the solver:
 * 1 as in the file, 0 reversed, x if it is not used.
 */
#include <ctime>
#include <fstream>
#include <iomanip>
#include <sstream>

#include "solver/solver.h"
#include "tasks/tasks.h"
#include "utils/file_reader.h"
#include "utils/parameter_handler.h"

using namespace STreeD;

// a clock that jumps past the limit at a chosen look
static long looks = -1;
extern "C" time_t time(time_t* t) {
	struct timespec now;
	clock_gettime(CLOCK_REALTIME, &now);
	if (looks > 0) looks--;
	time_t result = now.tv_sec + (looks == 0 ? 100000 : 0);
	if (t) *t = result;
	return result;
}

template <class OT>
struct Probe : public Solver<OT> {
	using Sol = typename Solver<OT>::SolContainer;
	using Context = typename Solver<OT>::Context;
	using Solver<OT>::Solver;

	void Begin() { this->stopwatch.Initialise(600); }

	// the training data and context of a branch; no data if a test does not split them
	ADataView Descend(const std::vector<std::pair<int, int>>& path, Context& context) {
		ADataView data = this->train_data;
		for (auto& step : path) {
			ADataView left, right;
			Context next;
			this->data_splitter.Split(data, context.GetBranch(), step.first, left, right);
			if (left.Size() == 0 || right.Size() == 0) return ADataView();
			if (step.second) this->GetTask()->GetRightContext(data, context, step.first, next);
			else this->GetTask()->GetLeftContext(data, context, step.first, next);
			data = step.second ? right : left;
			context = next;
		}
		return data;
	}
};

template <class OT>
std::string Show(const typename Solver<OT>::SolContainer& sol) {
	std::ostringstream out;
	out << std::setprecision(17);
	if constexpr (OT::total_order) {
		if (!sol.IsFeasible()) return "none";
		out << sol.solution;
	} else {
		out << sol->Size();
		for (auto& s : sol->GetSolutions()) out << " " << s.solution.false_negatives << " " << s.solution.false_positives;
	}
	return out.str();
}

template <class OT>
int Run(ParameterHandler parameters, const std::string& commands) {
	using Sol = typename Solver<OT>::SolContainer;
	std::default_random_engine rng(1);
	AData data(int(parameters.GetIntegerParameter("max-num-features")));
	AData data2(int(parameters.GetIntegerParameter("max-num-features")));
	ADataView train, test, train2, test2;
	FileReader::ReadData<OT>(parameters, data, train, test, &rng);
	FileReader::ReadData<OT>(parameters, data2, train2, test2, &rng);
	ParameterHandler plain = parameters;
	for (auto name : { "use-branch-caching", "use-dataset-caching", "use-similarity-lower-bound", "use-upper-bound", "use-lower-bound" })
		plain.SetBooleanParameter(name, false);
	Probe<OT> solver(parameters, &rng), other(plain, &rng);
	std::vector<std::pair<const AInstance*, std::vector<bool>>> before;
	for (int i = 0; i < data.Size(); i++) {
		const AInstance* instance = data.GetInstance(i);
		before.push_back({ instance, {} });
		for (int f = 0; f < data.NumFeatures(); f++) before.back().second.push_back(instance->IsFeaturePresent(f));
	}
	solver.PreprocessData(data, true);
	for (int f = 0; f < data.NumFeatures(); f++) {
		bool same = true, reversed = true;
		for (auto& b : before) {
			if (b.first->IsFeaturePresent(f) == b.second[f]) reversed = false;
			else same = false;
		}
		std::cout << (same ? "1 " : reversed ? "0 " : "x ");
	}
	std::cout << std::endl;
	solver.Begin();
	other.Begin();
	solver.InitializeSolver(train);
	other.PreprocessData(data2, true);
	other.InitializeSolver(train2);

	std::ifstream in(commands);
	std::string line;
	std::ostringstream sink;
	auto out = std::cout.rdbuf();
	while (std::getline(in, line)) {
		std::istringstream is(line);
		char op;
		is >> op;
		std::ostringstream said;
		said << std::setprecision(17) << op;
		long stop = -1;
		if (op == 't' || op == 'u') is >> stop;
		if (op == 's' || op == 'u') {
			std::cout.rdbuf(sink.rdbuf());
			looks = stop;
			solver.Solve(train);
			looks = -1;
			std::cout.rdbuf(out);
			solver.Begin();
		} else if (op == 'i') {
			int reset;
			is >> reset;
			solver.InitializeSolver(train, reset);
		} else {
			int steps, d, k;
			is >> steps;
			std::vector<std::pair<int, int>> path(steps);
			for (auto& p : path) is >> p.first >> p.second;
			is >> d >> k;
			typename Solver<OT>::Context context, context2;
			ADataView view = solver.Descend(path, context);
			ADataView view2 = other.Descend(path, context2);
			double weight = 0;
			for (int l = 0; l < view.NumLabels(); l++)
				for (auto i : view.GetInstancesForLabel(l)) weight += i->GetWeight();
			said << " " << int(weight);
			if (view.Size() == 0) {
				said << " empty";
			} else if (op == 't') {
				std::cout.rdbuf(sink.rdbuf());
				looks = stop;
				solver.SolveSubTree(view, context, InitializeSol<OT>(), d, k);
				looks = -1;
				std::cout.rdbuf(out);
			} else if (op == 'q') {
				double a, c;
				is >> a >> c;
				Sol ub = InitializeSol<OT>();
				std::cout.rdbuf(sink.rdbuf());
				if (a >= 0) {
					Sol x = other.SolveSubTree(view2, context2, InitializeSol<OT>(), d, k);
					if constexpr (OT::total_order) {
						if (x.IsFeasible()) ub.solution = typename OT::SolType(a * x.solution + c);
					} else {
						int skip = int(a);
						for (auto& s : x->GetSolutions()) {
							if (skip-- > 0) continue;
							auto sol = s.solution;
							sol.false_negatives += int(c);
							sol.false_positives += int(c);
							AddSol<OT>(ub, Node<OT>(sol));
							break;
						}
					}
				}
				std::string shown = Show<OT>(ub);
				Sol answer = solver.SolveSubTree(view, context, ub, d, k);
				std::cout.rdbuf(out);
				said << " " << shown << " " << Show<OT>(answer);
			} else {
				Sol lb = InitializeLB<OT>();
				solver.ComputeLowerBound(view, context, lb, d, k);
				said << " " << Show<OT>(lb);
			}
		}
		std::cout << said.str() << std::endl;
	}
	return 0;
}

int main(int argc, char* argv[]) try {
	ParameterHandler parameters = ParameterHandler::DefineParameters();
	std::string commands = argv[1];
	parameters.ParseCommandLineArguments(argc - 1, argv + 1);
	parameters.CheckParameters();
	std::string task = parameters.GetStringParameter("task");
	if (task == "accuracy") return Run<Accuracy>(parameters, commands);
	if (task == "cost-complex-accuracy") return Run<CostComplexAccuracy>(parameters, commands);
	if (task == "regression") return Run<Regression>(parameters, commands);
	if (task == "cost-complex-regression") return Run<CostComplexRegression>(parameters, commands);
	if (task == "simple-linear-regression") return Run<SimpleLinearRegression>(parameters, commands);
	if (task == "piecewise-linear-regression") return Run<PieceWiseLinearRegression>(parameters, commands);
	if (task == "cost-sensitive") return Run<CostSensitive>(parameters, commands);
	if (task == "instance-cost-sensitive") return Run<InstanceCostSensitive>(parameters, commands);
	if (task == "prescriptive-policy") return Run<PrescriptivePolicy>(parameters, commands);
	if (task == "survival-analysis") return Run<SurvivalAnalysis>(parameters, commands);
	if (task == "f1-score") return Run<F1Score>(parameters, commands);
	std::cout << "unknown task" << std::endl;
	return 2;
} catch (const std::exception& e) {
	std::cout << "Error: " << e.what() << std::endl;
	return 1;
}
