// Stand-in: dottorrent includes expected-lite but uses none of it in the headers verified here.
#pragma once
namespace nonstd {}
