#pragma once
#define ARROW_CONCAT_(x, y) x##y
#define ARROW_CONCAT(x, y) ARROW_CONCAT_(x, y)
#define ARROW_PREDICT_FALSE(x) (x)
