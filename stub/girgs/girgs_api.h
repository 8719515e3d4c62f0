#pragma once
#define GIRGS_API
