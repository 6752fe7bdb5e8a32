#pragma once
#include "pybind11.h"
namespace pybind11
{
namespace detail
{
inline op_<op_id::eq> operator==(const self_t &, const self_t &) { return {}; }
inline op_<op_id::ne> operator!=(const self_t &, const self_t &) { return {}; }
inline op_<op_id::lt> operator<(const self_t &, const self_t &) { return {}; }
inline op_<op_id::le> operator<=(const self_t &, const self_t &) { return {}; }
inline op_<op_id::gt> operator>(const self_t &, const self_t &) { return {}; }
inline op_<op_id::ge> operator>=(const self_t &, const self_t &) { return {}; }
inline op_<op_id::add> operator+(const self_t &, const self_t &) { return {}; }
inline op_<op_id::sub> operator-(const self_t &, const self_t &) { return {}; }
} // namespace detail
static const detail::self_t self{};
inline detail::op_<detail::op_id::hash> hash(const detail::self_t &) { return {}; }
} // namespace pybind11
