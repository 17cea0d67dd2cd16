#pragma once
namespace poslv {
struct TimeDistance { double time1; };
}
