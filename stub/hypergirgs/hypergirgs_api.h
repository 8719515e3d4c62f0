#pragma once
#define HYPERGIRGS_API
