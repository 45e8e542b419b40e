// Instantiates the composite measurements for a range of dimensions and component types; never run.
#include "itktfRegression.h"

namespace witness {

class Composites : public itk::Regression
{
public:
  int All( const std::string &n )
  {
    int r = 0;
    r += MeasurementInsightSize( itk::Size<1>(), n );
    r += MeasurementInsightSize( itk::Size<2>(), n );
    r += MeasurementInsightSize( itk::Size<3>(), n );
    r += MeasurementInsightSize( itk::Size<4>(), n );
    r += MeasurementInsightSize( itk::Size<11>(), n );
    r += MeasurementInsightIndex( itk::Index<1>(), n );
    r += MeasurementInsightIndex( itk::Index<2>(), n );
    r += MeasurementInsightIndex( itk::Index<3>(), n );
    r += MeasurementInsightIndex( itk::Index<4>(), n );
    r += MeasurementInsightIndex( itk::Index<11>(), n );
    r += MeasurementInsightRegion( itk::ImageRegion<1>(), n );
    r += MeasurementInsightRegion( itk::ImageRegion<2>(), n );
    r += MeasurementInsightRegion( itk::ImageRegion<3>(), n );
    r += MeasurementInsightRegion( itk::ImageRegion<4>(), n );
    r += MeasurementInsightPoint( itk::Point<double, 1>(), n );
    r += MeasurementInsightPoint( itk::Point<double, 2>(), n );
    r += MeasurementInsightPoint( itk::Point<float, 3>(), n );
    r += MeasurementInsightPoint( itk::Point<double, 4>(), n );
    r += MeasurementInsightVector( itk::Vector<double, 1>(), n );
    r += MeasurementInsightVector( itk::Vector<float, 2>(), n );
    r += MeasurementInsightVector( itk::Vector<double, 3>(), n );
    r += MeasurementInsightVector( itk::Vector<unsigned char, 4>(), n );
    r += MeasurementInsightVector( itk::Vector<int, 11>(), n );
    r += MeasurementInsightFixedArray( itk::FixedArray<double, 1>(), n );
    r += MeasurementInsightFixedArray( itk::FixedArray<unsigned char, 2>(), n );
    r += MeasurementInsightFixedArray( itk::FixedArray<float, 3>(), n );
    r += MeasurementInsightFixedArray( itk::FixedArray<double, 4>(), n );
    r += MeasurementInsightFixedArray( itk::FixedArray<int, 11>(), n );
    r += MeasurementInsightMatrix( itk::Matrix<double, 1, 1>(), n );
    r += MeasurementInsightMatrix( itk::Matrix<double, 2, 2>(), n );
    r += MeasurementInsightMatrix( itk::Matrix<float, 3, 3>(), n );
    r += MeasurementInsightMatrix( itk::Matrix<double, 2, 3>(), n );
    r += MeasurementInsightMatrix( itk::Matrix<double, 3, 2>(), n );
    r += MeasurementInsightMatrix( itk::Matrix<double, 4, 4>(), n );
    return r;
  }
};

int All( Composites &c, const std::string &n ) { return c.All( n ); }

}
