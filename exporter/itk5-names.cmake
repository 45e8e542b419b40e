# Read by every project() of /repo (CMAKE_PROJECT_INCLUDE, set in build.sh).
# The repository links the library names of ITK 3; apt has ITK 5.3, whose
# modules are named otherwise. This maps the old names to the new libraries.
if(NOT TARGET ITKIO)
  find_package(ITK REQUIRED)
  find_package(EXPAT REQUIRED)
  foreach(name ITKIO ITKBasicFilters)
    add_library(${name} INTERFACE IMPORTED GLOBAL)
    set_property(TARGET ${name} PROPERTY INTERFACE_LINK_LIBRARIES "${ITK_LIBRARIES}")
  endforeach()
  add_library(ITKEXPAT INTERFACE IMPORTED GLOBAL)
  set_property(TARGET ITKEXPAT PROPERTY INTERFACE_LINK_LIBRARIES "${EXPAT_LIBRARIES}")
endif()
