// a group element as the transcript sees it: so many bytes
#pragma once
namespace bn { struct Ec1 { unsigned long long w[3]; }; }
