#pragma once
#include "score/utility.hpp"
#include <cstdlib>
#include <exception>
#define SYMSTUB_ASSERT_(c) do { if (!(c)) { ::std::abort(); } } while (false)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(c) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(c, m) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(c) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(c, m) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(c) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(c, m) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(c) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(c, m) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG(c) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(c) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(c, m) SYMSTUB_ASSERT_(c)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() ::std::abort()
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(m) ::std::abort()
