// reference definitions for the distribution of processes (P15)
#include "util/factor.hpp"
#include "util/algohelper.hpp"
#include <list>
#include <vector>
#include <cmath>
typedef std::vector<int> VI;
typedef std::list<int> LI;
void makePrimes(LI &primes, int max);
void factorize(int number, LI &primes, LI &factors);
double distribute(VI &factors, LI allfact, VI &weights);
extern "C" {
void r_equal(int number, int nfact, VI &factors, VI &weights)
{
  LI primes, all;
  makePrimes(primes, int(std::floor(std::sqrt(double(number)))));
  factorize(number, primes, all);
  factors.resize(nfact);
  if (all.empty()) { for (int i = 0; i < nfact; ++i) factors[i] = 1; return; }
  factors[0] = all.front();
  for (int i = 1; i < nfact; ++i) factors[i] = 1;
  all.pop_front();
  if (!all.empty()) distribute(factors, all, weights);
}
void r_primes(LI &primes, int max)
{
  std::vector<bool> prime(max + 1, true);
  primes.clear();
  for (int i = 2; i <= max; ++i)
    if (prime[i]) { primes.push_back(i); for (int k = 2 * i; k <= max; k += i) prime[k] = false; }
}
void r_factorize(int number, LI &primes, LI &factors)
{
  if (number == 1) return;
  for (LI::iterator p = primes.begin(); p != primes.end(); ++p)
  {
    int q = *p;
    if (number % q == 0) { factorize(number / q, primes, factors); factors.push_front(q); return; }
  }
  factors.push_front(number);
}
void r_factorize2(int number, LI &primes, LI &factors)
{
  if (number == 1) return;
  for (LI::iterator p = primes.begin(); p != primes.end(); ++p)
    if (number % *p == 0) { int q = *p; factorize(number / q, primes, factors); factors.push_front(q); return; }
  factors.push_front(number);
}
void r_factorize3(int number, LI &primes, LI &factors)
{
  if (number == 1) return;
  LI::iterator p = primes.begin();
  while (p != primes.end() && number % *p != 0) ++p;
  int q = p == primes.end() ? number : *p;
  if (p != primes.end()) factorize(number / q, primes, factors);
  factors.push_front(q);
}
double r_distribute(VI &factors, LI all, VI &weights)
{
  int f = all.front();
  all.pop_front();
  if (all.empty())
  {
    std::vector<double> d;
    d.resize(factors.size());
    int least = 0;
    double low = 0;
    for (size_t i = 0; i < factors.size(); ++i)
    {
      d[i] = double(factors[i]) / double(weights[i]);
      if (i == 0 || d[i] < low) { least = i; low = d[i]; }
    }
    d[least] *= f;
    factors[least] *= f;
    return std::for_each(d.begin(), d.end(), schnek::calcsum<double>()).result();
  }
  VI best = factors;
  best[0] *= f;
  double sum = distribute(best, all, weights);
  for (size_t i = 1; i < factors.size(); ++i)
  {
    VI t = factors;
    t[i] *= f;
    double s = distribute(t, all, weights);
    if (s < sum) { best = t; sum = s; }
  }
  factors = best;
  return sum;
}
}
