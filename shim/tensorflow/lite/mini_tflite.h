// Stand-in for TensorFlow Lite (not installed in this sandbox): the C++ API
// subset the code under test uses, with a small interpreter that executes the
// float models in /repo/model.
#ifndef VERIF_SHIM_MINI_TFLITE_H
#define VERIF_SHIM_MINI_TFLITE_H
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

// The real headers pull these in transitively, and the mapper relies on it.
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

typedef enum TfLiteStatus {
  kTfLiteOk = 0,
  kTfLiteError = 1,
  kTfLiteDelegateError = 2,
} TfLiteStatus;
typedef enum { kTfLiteNoType = 0, kTfLiteFloat32 = 1 } TfLiteType;
typedef union TfLitePtrUnion {
  int32_t* i32;
  float* f;
  char* raw;
  void* data;
} TfLitePtrUnion;
typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  size_t bytes;
  const char* name;
} TfLiteTensor;
typedef struct TfLiteDelegate {
  int64_t flags;
} TfLiteDelegate;
enum { kTfLiteDelegateFlagsNone = 0, kTfLiteDelegateFlagsAllowDynamicTensors = 1 };

namespace tflite {
namespace mini {
struct Graph;  // immutable parsed model
std::shared_ptr<const Graph> Load(const std::string& path);
// One prediction. `feed` maps input name to value; every input must be present.
bool Run(const Graph& g, const std::map<std::string, float>& feed,
         const std::string& output, float* out);
}  // namespace mini

class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* filename);
  ~FlatBufferModel();
  std::shared_ptr<const mini::Graph> graph;
};

class SignatureRunner {
 public:
  TfLiteTensor* input_tensor(const char* name);
  const TfLiteTensor* output_tensor(const char* name) const;
  TfLiteStatus Invoke();
  TfLiteStatus AllocateTensors() { return kTfLiteOk; }
  std::vector<const char*> input_names();

 private:
  friend class Interpreter;
  struct Slot {
    TfLiteTensor t;
    float v;
  };
  std::shared_ptr<const mini::Graph> graph_;
  std::map<std::string, std::unique_ptr<Slot>> in_, out_;
};

class Interpreter {
 public:
  Interpreter(std::shared_ptr<const mini::Graph> g, const FlatBufferModel* m);
  ~Interpreter();
  TfLiteStatus AllocateTensors() {
    allocated_ = true;
    return kTfLiteOk;
  }
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate*);
  SignatureRunner* GetSignatureRunner(const char* key);

 private:
  bool allocated_ = false;
  SignatureRunner runner_;
};

namespace ops {
namespace builtin {
class BuiltinOpResolver {};
}  // namespace builtin
}  // namespace ops

class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& m,
                     const ops::builtin::BuiltinOpResolver&)
      : graph_(m.graph), model_(&m) {}
  TfLiteStatus SetNumThreads(int) { return kTfLiteOk; }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out);

 private:
  std::shared_ptr<const mini::Graph> graph_;
  const FlatBufferModel* model_;
};
}  // namespace tflite

#define TFLITE_XNNPACK_DELEGATE_FLAG_QS8 0x00000001
#define TFLITE_XNNPACK_DELEGATE_FLAG_QU8 0x00000002
typedef struct {
  int32_t num_threads;
  uint32_t flags;
} TfLiteXNNPackDelegateOptions;
TfLiteXNNPackDelegateOptions TfLiteXNNPackDelegateOptionsDefault();
TfLiteDelegate* TfLiteXNNPackDelegateCreate(
    const TfLiteXNNPackDelegateOptions* options);
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* delegate);
#endif
