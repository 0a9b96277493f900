// All public names of boundary node sets.
#define NODESETS_2D(X) \
    X(nodesBottomEdge) X(nodesTopEdge) X(nodesLeftEdge) X(nodesRightEdge) X(nodesBottomOpenEdge) \
    X(nodesTopOpenEdge) X(nodesLeftOpenEdge) X(nodesRightOpenEdge) X(nodesBottomLeftCorner) \
    X(nodesBottomRightCorner) X(nodesTopLeftCorner) X(nodesTopRightCorner) X(nodesLeftBottomCorner) \
    X(nodesLeftTopCorner) X(nodesRightBottomCorner) X(nodesRightTopCorner)

#define NODESETS_3D(X) \
    X(nodesBottom) X(nodesTop) X(nodesLeft) X(nodesRight) X(nodesFront) X(nodesBack) \
    X(nodesFrontBottomEdge) X(nodesFrontTopEdge) X(nodesFrontLeftEdge) X(nodesFrontRightEdge) \
    X(nodesBackBottomEdge) X(nodesBackTopEdge) X(nodesBackLeftEdge) X(nodesBackRightEdge) \
    X(nodesBottomLeftEdge) X(nodesBottomRightEdge) X(nodesTopLeftEdge) X(nodesTopRightEdge) \
    X(nodesBottomFrontEdge) X(nodesBottomBackEdge) X(nodesTopFrontEdge) X(nodesTopBackEdge) \
    X(nodesLeftBottomEdge) X(nodesLeftFrontEdge) X(nodesLeftBackEdge) X(nodesLeftTopEdge) \
    X(nodesRightBottomEdge) X(nodesRightTopEdge) X(nodesRightFrontEdge) X(nodesRightBackEdge) \
    X(nodesFrontFace) X(nodesBackFace) X(nodesLeftFace) X(nodesRightFace) X(nodesBottomFace) \
    X(nodesTopFace) X(nodesFrontBottomOpenEdge) X(nodesFrontTopOpenEdge) X(nodesFrontLeftOpenEdge) \
    X(nodesFrontRightOpenEdge) X(nodesBackBottomOpenEdge) X(nodesBackTopOpenEdge) \
    X(nodesBackLeftOpenEdge) X(nodesBackRightOpenEdge) X(nodesBottomLeftOpenEdge) \
    X(nodesBottomRightOpenEdge) X(nodesTopLeftOpenEdge) X(nodesTopRightOpenEdge) \
    X(nodesBottomFrontOpenEdge) X(nodesBottomBackOpenEdge) X(nodesTopFrontOpenEdge) \
    X(nodesTopBackOpenEdge) X(nodesLeftBottomOpenEdge) X(nodesLeftFrontOpenEdge) X(nodesLeftBackOpenEdge) \
    X(nodesLeftTopOpenEdge) X(nodesRightBottomOpenEdge) X(nodesRightTopOpenEdge) \
    X(nodesRightFrontOpenEdge) X(nodesRightBackOpenEdge) X(nodesFrontBottomLeftCorner) \
    X(nodesFrontBottomRightCorner) X(nodesFrontTopLeftCorner) X(nodesFrontTopRightCorner) \
    X(nodesBackBottomLeftCorner) X(nodesBackBottomRightCorner) X(nodesBackTopLeftCorner) \
    X(nodesBackTopRightCorner) X(nodesFrontLeftBottomCorner) X(nodesBottomFrontLeftCorner) \
    X(nodesBottomLeftFrontCorner) X(nodesLeftFrontBottomCorner) X(nodesLeftBottomFrontCorner) \
    X(nodesFrontRightBottomCorner) X(nodesBottomFrontRightCorner) X(nodesBottomRightFrontCorner) \
    X(nodesRightFrontBottomCorner) X(nodesRightBottomFrontCorner) X(nodesFrontLeftTopCorner) \
    X(nodesTopFrontLeftCorner) X(nodesTopLeftFrontCorner) X(nodesLeftFrontTopCorner) \
    X(nodesLeftTopFrontCorner) X(nodesFrontRightTopCorner) X(nodesTopFrontRightCorner) \
    X(nodesTopRightFrontCorner) X(nodesRightFrontTopCorner) X(nodesRightTopFrontCorner) \
    X(nodesBackLeftBottomCorner) X(nodesBottomBackLeftCorner) X(nodesBottomLeftBackCorner) \
    X(nodesLeftBackBottomCorner) X(nodesLeftBottomBackCorner) X(nodesBackRightBottomCorner) \
    X(nodesBottomBackRightCorner) X(nodesBottomRightBackCorner) X(nodesRightBackBottomCorner) \
    X(nodesRightBottomBackCorner) X(nodesBackLeftTopCorner) X(nodesTopBackLeftCorner) \
    X(nodesTopLeftBackCorner) X(nodesLeftBackTopCorner) X(nodesLeftTopBackCorner) \
    X(nodesBackRightTopCorner) X(nodesTopBackRightCorner) X(nodesTopRightBackCorner) \
    X(nodesRightBackTopCorner) X(nodesRightTopBackCorner)
