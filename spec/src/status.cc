// Copyright 2023 juntaosu
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//     http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.
#include "src/status.h"

#include <cstdio>
#include <cstdarg>
#include <cstring>

namespace craft {

char* Status::CopyState(char* dst, const char* src) {
    if (src == nullptr) {
        return dst;
    }

    if (dst == nullptr) {
        dst = new char[kStateMaxSize];
    }

    std::memcpy(dst, src, kStateMaxSize);

    return dst;
}

Status Status::Error(const char* format, ...) {
    char* state = new char[kStateMaxSize];
    va_list vlist;

    va_start(vlist, format);
    vsnprintf(state, kStateMaxSize, format, vlist);
    va_end(vlist);

    return Status(state);
}

} // namespace craft