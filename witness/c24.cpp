// Instantiates the image difference filter for two kinds of pixels; never run.
#include "itktfRegression.h"
#include "itkImage.h"

namespace witness {

class Differences : public itk::Regression
{
public:
  typedef itk::Image<double, 3>       RealType;
  typedef itk::Image<unsigned int, 3> CountType;

  unsigned long Reals( RealType::ConstPointer a, RealType::ConstPointer b, double i, unsigned int n, unsigned int r )
  { return CompareImage<RealType>( a, b, i, n, r ); }

  unsigned long Counts( CountType::ConstPointer a, CountType::ConstPointer b, double i, unsigned int n, unsigned int r )
  { return CompareImage<CountType>( a, b, i, n, r ); }
};

}
