// Instantiates the image comparisons of the test class; never run.
#include "itktfRegression.h"
#include "itkImage.h"

namespace witness {

class Images : public itk::Regression
{
public:
  typedef itk::Image<double, 3> ImageType;

  unsigned long Files( fileutil::PathName a, fileutil::PathName b, double i, unsigned int n, unsigned int r )
  { return CompareImage<ImageType>( a, b, i, n, r ); }

  unsigned long Region( ImageType::ConstPointer a, ImageType::ConstPointer b, ImageType::RegionType r )
  { return CompareImage<ImageType>( a, b, r ); }

  unsigned long Whole( ImageType::ConstPointer a, ImageType::ConstPointer b, double i, unsigned int n, unsigned int r )
  { return CompareImage<ImageType>( a, b, i, n, r ); }

  unsigned long Full( ImageType::ConstPointer a, ImageType::ConstPointer b, double i, unsigned int n, unsigned int r, ImageType::RegionType q )
  { return CompareImage<ImageType>( a, b, i, n, r, q ); }
};

}
