#include "tensorflow/lite/mini_tflite.h"
