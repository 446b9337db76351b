// The repository's own transcript, under another name, on a transcript whose group elements are written as their logarithms.
#define proof_transcript repo_transcript
#define container repo_container
#include <vector>
#include <cstring>
#include <cstdio>
#include "linear_gkr/transcript.h"
namespace fs {
std::vector<prime_field::field_element> challenge(const std::vector<std::pair<prime_field::field_element, bool> > &msg, int n)
{
	repo_transcript t;
	for (auto &x : msg) t.msg.push_back(repo_container(x.first, x.second ? repo_container::randomness_indicator : repo_container::fld_ele_indicator));
	prime_field::field_element *r = t.random(n);
	return std::vector<prime_field::field_element>(r, r + n);
}
}
