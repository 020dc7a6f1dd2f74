#pragma once
#define PLUGINLIB_EXPORT_CLASS(a, b)
#define PLUGINLIB_DECLARE_CLASS(a, b, c, d)
