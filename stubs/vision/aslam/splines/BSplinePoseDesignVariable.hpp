#pragma once
namespace aslam { namespace splines { class BSplinePoseDesignVariable {}; } }
