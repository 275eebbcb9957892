// Error plumbing shared by harnesses: `VP_TRY(ec, expr)` runs a throwing overload and turns the exception into ec.
#pragma once
#include "vp.h"
#include <asio/error.hpp>
#include <asio/system_error.hpp>
#include <system_error>
static inline vp_err::error_code vp_stale() { return vp_err::error_code(77, ::asio::error::get_system_category()); } // must be overwritten
static inline bool vp_sys(const vp_err::error_code& ec, int e) { return (ec.value() == e) & (&ec.category() == &::asio::error::get_system_category()); }
template <class F> static void vp_try(vp_err::error_code& ec, F f) { ec = vp_err::error_code(); try { f(); } catch (const vp_err::system_error& e) { ec = e.code(); vp_check((bool)ec, "throwing overload: the exception carries an error"); } }
