// The Python side of the command line tools is outside the simulation
struct _object;
typedef _object PyObject;

#include <arki/query/progress.h>
#include <ctime>

namespace arki::python::dataset {

// As declared by arki/python/dataset/progress.h
class PythonProgress : public arki::query::Progress
{
protected:
    struct timespec last_call = {0, 0};
    PyObject* meth_start      = nullptr;
    PyObject* meth_update     = nullptr;
    PyObject* meth_done       = nullptr;
    size_t partial_count      = 0;
    size_t partial_bytes      = 0;

    void call_update() {}

public:
    PythonProgress(PyObject* progress = nullptr);
    ~PythonProgress();

    void start(size_t expected_count = 0, size_t expected_bytes = 0) override;
    void update(size_t count, size_t bytes) override;
    void done() override;
};

PythonProgress::PythonProgress(PyObject*) {}
PythonProgress::~PythonProgress() {}
void PythonProgress::start(size_t count, size_t bytes) { Progress::start(count, bytes); }
void PythonProgress::update(size_t count, size_t bytes) { Progress::update(count, bytes); }
void PythonProgress::done() { Progress::done(); }

} // namespace arki::python::dataset
