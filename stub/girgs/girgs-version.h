#pragma once
#define GIRGS_NAME_VERSION "girgs v0.0.0 (verif)"
#define GIRGS_PROJECT_DESCRIPTION "description"
#define GIRGS_AUTHOR_ORGANIZATION "org"
#define GIRGS_AUTHOR_DOMAIN "domain"
#define GIRGS_AUTHOR_MAINTAINER "maintainer"
