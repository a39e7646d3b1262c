F = 'src/humanoid_feet_supervisor.cpp'; W = 'src/humanoid_walkgen.cpp'; T = 'src/tools.cpp'; CP = 'src/convexpolygon.cpp'; IN = 'src/interpolator.cpp'
rf('fsm-ternary', 'C16 C17', (F, """      if(move_)
      {
        //DS -> SS
        setPhase(Phase<Scalar>::leftSS);
      }
      else
      {
        //DS -> DS
        setPhase(Phase<Scalar>::DS);
      }
""", """      setPhase(move_ ? Phase<Scalar>::leftSS : Phase<Scalar>::DS);
"""), (F, """        if(lastPhase.phaseType_ == Phase<Scalar>::leftSS)
        {
          setPhase(Phase<Scalar>::rightSS);
        }
        else
        {
          setPhase(Phase<Scalar>::leftSS);
        }
""", """        const bool left = lastPhase.phaseType_ == Phase<Scalar>::leftSS;
        setPhase(left ? Phase<Scalar>::rightSS : Phase<Scalar>::leftSS);
"""), (F, """    if(timeline_.front().phaseType_ == Phase<Scalar>::DS)
    {
      return true;
    }

    return false;
""", """    return timeline_.front().phaseType_ == Phase<Scalar>::DS;
"""))
rf('setphase-if', 'C16', (F, """    switch (phaseType)
    {
    case Phase<Scalar>::DS:
      phase_.phaseType_ = Phase<Scalar>::DS;
      phase_.duration_ = DSPeriod_;
      break;
    case Phase<Scalar>::leftSS:
      phase_.phaseType_ = Phase<Scalar>::leftSS;
      phase_.duration_ = stepPeriod_;
      break;
    case Phase<Scalar>::rightSS:
      phase_.phaseType_ = Phase<Scalar>::rightSS;
      phase_.duration_ = stepPeriod_;
      break;
    default:
      std::abort();
      break;
    }
""", """    phase_.phaseType_ = phaseType;
    phase_.duration_ = (phaseType == Phase<Scalar>::DS) ? DSPeriod_ : stepPeriod_;
"""))
rf('weights-helper', 'C16', (F, """    Scalar timeToNextSample = timeToNextPhase_;

    while(timeToNextSample > samplingPeriod_ + Constant<Scalar>::EPSILON)
    {
      timeToNextSample -= samplingPeriod_;
    }

    return static_cast<int>((""", """    const Scalar timeToNextSample = remainder(timeToNextPhase_, samplingPeriod_);

    return static_cast<int>(("""), (F, """    Scalar timeToNextSample = timeToNextPhase_;

    while(timeToNextSample > samplingPeriod_ + Constant<Scalar>::EPSILON)
    {
      timeToNextSample -= samplingPeriod_;
    }

    sampleWeightMatrix_ = MatrixX::Identity(nbSamples_, nbSamples_);""", """    const Scalar timeToNextSample = remainder(timeToNextPhase_, samplingPeriod_);

    sampleWeightMatrix_.setIdentity(nbSamples_, nbSamples_);"""), (F, """namespace MPCWalkgen
{
""", """namespace MPCWalkgen
{
  namespace
  {
    template <typename S>
    S remainder(S time, S period)
    {
      for(; time > period + Constant<S>::EPSILON; time -= period) {}
      return time;
    }
  }
"""))
rf('minmax', 'C16', (F, """    for(size_t j=1; j<p.size(); ++j)
    {
      if(leftmostPointX > p[j](0))
      {
        leftmostPointX = p[j](0);
      }
      if(rightmostPointX < p[j](0))
      {
        rightmostPointX = p[j](0);
      }

      if(lowestPointY > p[j](1))
      {
        lowestPointY = p[j](1);
      }
      if(highestPointY < p[j](1))
      {
        highestPointY = p[j](1);
      }
    }
""", """    for(const auto& vertex : p)
    {
      leftmostPointX = std::min(leftmostPointX, vertex(0));
      rightmostPointX = std::max(rightmostPointX, vertex(0));
      lowestPointY = std::min(lowestPointY, vertex(1));
      highestPointY = std::max(highestPointY, vertex(1));
    }
"""))
rf('minmax-iter', 'C16', (F, """    for(size_t j=1; j<p.size(); ++j)
    {
      if(leftmostPointX > p[j](0))
      {
        leftmostPointX = p[j](0);
      }
      if(rightmostPointX < p[j](0))
      {
        rightmostPointX = p[j](0);
      }

      if(lowestPointY > p[j](1))
      {
        lowestPointY = p[j](1);
      }
      if(highestPointY < p[j](1))
      {
        highestPointY = p[j](1);
      }
    }
""", """    for(typename vectorOfVector2::const_iterator it = p.begin(); it != p.end(); ++it)
    {
      const Scalar x = (*it)(0);
      const Scalar y = (*it)(1);
      if(x < leftmostPointX) leftmostPointX = x;
      else if(x > rightmostPointX) rightmostPointX = x;
      if(y < lowestPointY) lowestPointY = y;
      else if(y > highestPointY) highestPointY = y;
    }
"""))
rf('new-step-once', 'C16', (F, """    if(newNbOfSteps==1)
    {
      variable(2*nbSamples_ + newNbOfSteps - 1) =
          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;

      variable(newSize - 1) =
          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
    }
    else
    {
      variable(2*nbSamples_ + newNbOfSteps - 1) =
          variable(2*nbSamples_ + newNbOfSteps - 2) + (rightmostPointX + leftmostPointX)/2;

      variable(newSize - 1) =
          variable(newSize - 2) + (lowestPointY + highestPointY)/2;
    }
""", """    const Scalar middleX = (rightmostPointX + leftmostPointX)*0.5f;
    const Scalar middleY = (lowestPointY + highestPointY)*0.5f;
    const bool first = newNbOfSteps==1;
    const Scalar previousX = first ? getSupportFootStateX()(0)
                                   : variable(2*nbSamples_ + newNbOfSteps - 2);
    const Scalar previousY = first ? getSupportFootStateY()(0) : variable(newSize - 2);
    variable(newSize - 1) = previousY + middleY;
    variable(2*nbSamples_ + newNbOfSteps - 1) = previousX + middleX;
"""))
rf('shorten-inplace', 'C16', (F, """    VectorX save = variable;


    variable = save.segment(0, 2*nbSamples_ + 2*newNbOfSteps);

    variable.segment(2*nbSamples_, newNbOfSteps) =
        save.segment(2*nbSamples_ + 1,  newNbOfSteps);
    variable.segment(2*nbSamples_ + newNbOfSteps, newNbOfSteps) =
        save.segment(nbSamples_ + save.rows()/2 + 1,  newNbOfSteps);
""", """    const VectorX stepsX = variable.segment(2*nbSamples_ + 1, newNbOfSteps);
    const VectorX stepsY = variable.tail(newNbOfSteps);

    variable.conservativeResize(2*nbSamples_ + 2*newNbOfSteps);
    variable.tail(2*newNbOfSteps) << stepsX, stepsY;
"""))
rf('shorten-loop', 'C16', (F, """    variable.segment(2*nbSamples_, newNbOfSteps) =
        save.segment(2*nbSamples_ + 1,  newNbOfSteps);
    variable.segment(2*nbSamples_ + newNbOfSteps, newNbOfSteps) =
        save.segment(nbSamples_ + save.rows()/2 + 1,  newNbOfSteps);
""", """    for(int i=0; i<newNbOfSteps; ++i)
    {
      variable(2*nbSamples_ + i) = save(2*nbSamples_ + 1 + i);
      variable(2*nbSamples_ + newNbOfSteps + i) = save(nbSamples_ + save.rows()/2 + 1 + i);
    }
"""))
rf('rotation-identity', 'C16 C13', (F, """    rotationMatrix_.setZero(2*nbSamples_, 2*nbSamples_);

    //TODO: complete. WARNING: rotation of -yaw
    for(int i=0; i<nbSamples_; ++i)
    {
      rotationMatrix_(i, i) = 1.0;
      rotationMatrix_(i + nbSamples_, i + nbSamples_) = 1.0;
    }
""", """    rotationMatrix_.setIdentity(2*nbSamples_, 2*nbSamples_);
"""))
rf('ds-polygon-pushback', 'C16', (F, """    copDSpoints_.resize(N1 + N2);
""", """    copDSpoints_.clear();
    copDSpoints_.reserve(N1 + N2);
"""), (F, """      copDSpoints_[i] = leftFootModel_.getCopConvexPolygon().getVertices()[i]
          + leftFootPos
          - translationVec;
""", """      const Vector2& vertex = leftFootModel_.getCopConvexPolygon().getVertices()[i];
      copDSpoints_.push_back(vertex + (leftFootPos - translationVec));
"""), (F, """      copDSpoints_[i + N1] = rightFootModel_.getCopConvexPolygon().getVertices()[i]
          + rightFootPos
          - translationVec;
""", """      const Vector2& vertex = rightFootModel_.getCopConvexPolygon().getVertices()[i];
      copDSpoints_.push_back(vertex + (rightFootPos - translationVec));
"""))
rf('flying-foot-helper', 'C17', (F, """      HumanoidFootModel<Scalar>* flyingFoot;

      switch (timeline_.front().phaseType_)
      {
      case Phase<Scalar>::leftSS:
        flyingFoot = &rightFootModel_;
        break;

      case Phase<Scalar>::rightSS:
        flyingFoot = &leftFootModel_;
        break;

      default:
        std::abort();
        break;
      }
""", """      HumanoidFootModel<Scalar>* flyingFoot =
          timeline_.front().phaseType_ == Phase<Scalar>::leftSS ? &rightFootModel_
                                                                : &leftFootModel_;
"""))
rf('flying-foot-ref', 'C17', (F, """      HumanoidFootModel<Scalar>* flyingFoot;

      switch (timeline_.front().phaseType_)
      {
      case Phase<Scalar>::leftSS:
        flyingFoot = &rightFootModel_;
        break;

      case Phase<Scalar>::rightSS:
        flyingFoot = &leftFootModel_;
        break;

      default:
        std::abort();
        break;
      }
""", """      const bool leftSupport = timeline_.front().phaseType_ == Phase<Scalar>::leftSS;
      HumanoidFootModel<Scalar>& foot = leftSupport ? rightFootModel_ : leftFootModel_;
      HumanoidFootModel<Scalar>* flyingFoot = &foot;
"""), (F, """      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON)
      {
        flyingFoot->updateStateZ(Vector3::Zero(),
                                 timeToNextPhase_,
                                 feedBackPeriod);
      }
      else
      {
        flyingFoot->updateStateZ(Vector3(flyingFoot->getMaxHeight(), 0, 0),
                                 timeToNextPhase_ - flyingTime*0.5f,
                                 feedBackPeriod);
      }
""", """      const bool goingUp = !(timeToNextPhase_ < flyingTime/2 + Constant<Scalar>::EPSILON);
      Vector3 objective = Vector3::Zero();
      Scalar remaining = timeToNextPhase_;
      if(goingUp)
      {
        objective(0) = flyingFoot->getMaxHeight();
        remaining -= flyingTime/2;
      }
      flyingFoot->updateStateZ(objective, remaining, feedBackPeriod);
"""))
rf('flight-early-return', 'C17 C16', (F, """    if(!isInDS() &&
       (timeToNextPhase_ < flyingTime + Constant<Scalar>::EPSILON))
    {
      HumanoidFootModel<Scalar>* flyingFoot;
""", """    const Scalar remainingTime = timeToNextPhase_;
    timeToNextPhase_ -= feedBackPeriod;

    if(isInDS() || remainingTime >= flyingTime + Constant<Scalar>::EPSILON)
    {
      return;
    }
    {
      HumanoidFootModel<Scalar>* flyingFoot;
"""), (F, """      flyingFoot->updateStateX(Vector3(stepVec(0), 0, 0),
                               timeToNextPhase_,""", """      flyingFoot->updateStateX(Vector3(stepVec(0), 0, 0),
                               remainingTime,"""), (F, """      flyingFoot->updateStateY(Vector3(stepVec(nbPreviewedSteps_), 0, 0),
                               timeToNextPhase_,""", """      flyingFoot->updateStateY(Vector3(stepVec(nbPreviewedSteps_), 0, 0),
                               remainingTime,"""), (F, """      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON)
      {
        flyingFoot->updateStateZ(Vector3::Zero(),
                                 timeToNextPhase_,
                                 feedBackPeriod);""", """      if(remainingTime < flyingTime*0.5f + Constant<Scalar>::EPSILON)
      {
        flyingFoot->updateStateZ(Vector3::Zero(),
                                 remainingTime,
                                 feedBackPeriod);"""), (F, """                                 timeToNextPhase_ - flyingTime*0.5f,
                                 feedBackPeriod);
      }
    }

    // Updating timeToNextPhase_
    timeToNextPhase_ -= feedBackPeriod;
""", """                                 remainingTime - flyingTime*0.5f,
                                 feedBackPeriod);
      }
    }
"""))
rf('selection-for', 'C16 C08', (F, """    while ((phaseTimer_ > samplingPeriod_ + Constant<Scalar>::EPSILON) && (row < nbSamples_))
    {
      selectionMatrices_.V0(row) = 1;
      phaseTimer_ -= samplingPeriod_;
      ++row;
    }
""", """    for(; row < nbSamples_ && phaseTimer_ > samplingPeriod_ + Constant<Scalar>::EPSILON; ++row)
    {
      selectionMatrices_.V0(row) = 1;
      phaseTimer_ -= samplingPeriod_;
    }
"""), (F, """        if(isInDS() && (phaseIndex==1 || !move_))
        {
          selectionMatrices_.V0(row) = 1;
        }
        else
        {
          selectionMatrices_.V(row, col) = 1;
        }

        phaseIndexFromSample_(row) = phaseIndex;

        ++row;
""", """        const bool onSupportFoot = isInDS() && (!move_ || phaseIndex==1);
        phaseIndexFromSample_(row) = phaseIndex;
        if(!onSupportFoot)
        {
          selectionMatrices_.V(row, col) = 1;
        }
        else
        {
          selectionMatrices_.V0(row) = 1;
        }
        ++row;
"""))
rf('enlarge-if', 'C16', (F, """        else
        {
          timeline_[phaseIndex + 1].phaseType_ = phase_.phaseType_;
          timeline_[phaseIndex + 1].duration_ = phase_.duration_;
        }

        phaseTimer_ = timeline_[phaseIndex + 1].duration_;
        ++phaseIndex;
""", """        else
        {
          timeline_[phaseIndex + 1] = phase_;
        }

        ++phaseIndex;
        phaseTimer_ = timeline_[phaseIndex].duration_;
"""))
rf('hull-do', 'C20', (CP, """    while(index != getIndexOfLowestAndLeftmostVertice(points))
    {
      assert(p.size() <= points.size());

      p.push_back(points[index]);
      index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
    }
""", """    const int first = getIndexOfLowestAndLeftmostVertice(points);
    for(; index != first; index = getIndexOfSmallestAngleVertice(index, p[p.size()-2], points))
    {
      assert(p.size() <= points.size());
      p.push_back(points[index]);
    }
"""))
rf('hull-while-true', 'C20', (CP, """    while(index != getIndexOfLowestAndLeftmostVertice(points))
    {
      assert(p.size() <= points.size());

      p.push_back(points[index]);
      index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
    }
""", """    const int first = getIndexOfLowestAndLeftmostVertice(points);
    while(true)
    {
      if(index == first)
      {
        break;
      }
      assert(p.size() <= points.size());
      p.push_back(points[index]);
      index = getIndexOfSmallestAngleVertice(index, p[p.size()-2], points);
    }
"""))
rf('hull-angle-vars', 'C20', (CP, """        else if(angleBetweenVecs(ptot[currIndex] - lastVertice,
                            ptot[i] - ptot[currIndex]) <
           angleBetweenVecs(ptot[currIndex] -
                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
        {
          indexesTab.erase(indexesTab.begin(), indexesTab.end());
          indexesTab.push_back(i);
        }
        else if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
                                          ptot[i] - ptot[currIndex]) -
                         angleBetweenVecs(ptot[currIndex] - lastVertice,
                                          ptot[indexesTab[0]] - ptot[currIndex]))
               < Constant<Scalar>::EPSILON)
        {
          indexesTab.push_back(i);
        }
""", """        else
        {
          const Vector2 edge = ptot[currIndex] - lastVertice;
          const Scalar angle = angleBetweenVecs(edge, ptot[i] - ptot[currIndex]);
          const Scalar best = angleBetweenVecs(edge, ptot[indexesTab.front()] - ptot[currIndex]);
          if(angle < best)
          {
            indexesTab.clear();
            indexesTab.push_back(i);
          }
          else if(std::abs(angle - best) < Constant<Scalar>::EPSILON)
          {
            indexesTab.push_back(i);
          }
        }
"""))
rf('hull-lowest-one-pass', 'C20 C19', (CP, """    //Storing indexes of the vertices with the lowest value of Y coordinate
    std::vector<int> lowestVerticesIndexes;
    lowestVerticesIndexes.reserve(p.size());

    lowestVerticesIndexes.push_back(0);

    for (size_t i=1; i<p.size(); ++i)
    {
      if(p[i](1)<p[lowestVerticesIndexes[0]](1))
      {
        lowestVerticesIndexes.erase(lowestVerticesIndexes.begin(),
                                    lowestVerticesIndexes.end());
        lowestVerticesIndexes.push_back(i);
      }
      else if(std::abs(p[i](1)-p[lowestVerticesIndexes[0]](1)) < Constant<Scalar>::EPSILON)
      {
        lowestVerticesIndexes.push_back(i);
      }
    }

    //Choosing the index of the leftmost vertex among p[lowestVerticesIndexes]
    //i.e. the one with the lowest value of X coordinate
    if (lowestVerticesIndexes.size()>1)
    {
      int index = lowestVerticesIndexes[0];
      for(size_t i=1; i<lowestVerticesIndexes.size(); ++i)
      {
        if(p[lowestVerticesIndexes[i]](0)<p[index](0))
        {
          index = lowestVerticesIndexes[i];
        }
      }
      assert(index < static_cast<int>(p.size()));
      return index;
    }
    else
    {
      assert(lowestVerticesIndexes[0] <static_cast<int>(p.size()));
      return lowestVerticesIndexes[0];
    }
""", """    int index = 0;
    for (size_t i=1; i<p.size(); ++i)
    {
      const bool level = std::abs(p[i](1) - p[index](1)) < Constant<Scalar>::EPSILON;
      if((!level && p[i](1) < p[index](1)) || (level && p[i](0) < p[index](0)))
      {
        index = static_cast<int>(i);
      }
    }
    return index;
"""))
rf('bounds-refs', 'C19', (CP, """    for (int i=0; i<nbVertices; ++i)
    {""", """    for (int k=nbVertices; k>0; --k)
    {
      const int i = nbVertices - k;"""))
rf('pos-runningtime', 'C01 C02', (T, """  for (int i=0; i<N; ++i)
  {
    dyn.S(i, 0) = 1.0f;
    dyn.S(i, 1) = static_cast<Scalar>(i)*T + S;
    dyn.S(i, 2) = 0.5f*SS
                + static_cast<Scalar>(i)*T*S
                + 0.5f*std::pow(static_cast<Scalar>(i), 2)*TT;
""", """  for (int i=0; i<N; ++i)
  {
    const Scalar t = S + static_cast<Scalar>(i)*T;
    dyn.S(i, 0) = 1;
    dyn.S(i, 1) = t;
    dyn.S(i, 2) = t*t/2;
"""))
rf('acc-split', 'C01 C02', (T, """    for(int j=1; j<=i; ++j)
    {
      dyn.U(i, j) = dyn.UT(j, i) = T;
      if(i == j)
      {
        dyn.Uinv(i, j) = dyn.UTinv(j, i) = 1/T;
      }
      if(i == j+1)
      {
        dyn.Uinv(i, j) = dyn.UTinv(j, i) = -1/T;
      }
    }

  }
}

template <typename Scalar>
void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(""", """    for(int j=1; j<=i; ++j)
    {
      dyn.U(i, j) = dyn.UT(j, i) = T;
    }
  }
  const Scalar inv = 1/T;
  for (int i=1; i<N; ++i)
  {
    dyn.Uinv(i, i) = inv;
    dyn.UTinv(i, i) = inv;
    if(i>1)
    {
      dyn.Uinv(i, i-1) = -inv;
      dyn.UTinv(i-1, i) = -inv;
    }
  }
}

template <typename Scalar>
void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic("""))
rf('vel-columns', 'C01 C02', (T, """    dyn.U(i, 0) = dyn.UT(0, i) = 0.5f*SS + static_cast<Scalar>(i)*T*S;
    for(int j=1; j<=i; ++j)
    {
      dyn.U(i, j) = dyn.UT(j, i) = 0.5f*TT + static_cast<Scalar>(i-j)*TT;
    }
  }

  Tools::inverseLU(dyn.U, dyn.Uinv, Constant<Scalar>::EPSILON);
  dyn.UTinv = dyn.Uinv.transpose();
}

template <typename Scalar>
void Tools::ConstantJerkDynamic<Scalar>::computeOrder2PosDynamic(""", """  }

  for (int j=0; j<N; ++j)
  {
    for (int i=j; i<N; ++i)
    {
      dyn.U(i, j) = (j == 0) ? SS/2 + static_cast<Scalar>(i)*T*S
                             : (static_cast<Scalar>(i-j) + 0.5f)*TT;
    }
  }
  dyn.UT = dyn.U.transpose();

  Tools::inverseLU(dyn.U, dyn.Uinv, Constant<Scalar>::EPSILON);
  dyn.UTinv = dyn.Uinv.transpose();
}

template <typename Scalar>
void Tools::ConstantJerkDynamic<Scalar>::computeOrder2PosDynamic("""))
rf('state-horner', 'C03 C13', (T, """  state(0) += state(1)*T
      + 0.5f*state(2)*std::pow(T, 2)
      + jerk*std::pow(T, 3)/6.0f;

  state(1) += state(2)*T
      + 0.5f*jerk*std::pow(T, 2);

  state(2) += jerk*T;
""", """  const Scalar pos = state(0);
  const Scalar vel = state(1);
  const Scalar acc = state(2);
  state(2) = acc + jerk*T;
  state(1) = vel + T*(acc + T*jerk/2);
  state(0) = pos + T*(vel + T*(acc/2 + T*jerk/6));
"""))
rf('interp-head', 'C18', (IN, """    b_(3) = 0;
    b_(4) = 0;
    b_(5) = 0;
    b_(6) = finalState(0);
    b_(7) = T*finalState(1);
    b_(8) = T*T*finalState(2);

    abc_=aInvNorm_*b_;
""", """    b_.template segment<3>(3).setZero();
    b_.template tail<3>() = Vector3(1, T, T*T).cwiseProduct(finalState);

    abc_.noalias() = aInvNorm_*b_;
"""))
rf('interp-index', 'C18', (IN, """    if (t<=T/3.0)
    {
      subfactor = factor.template segment<4>(0);
    }
    else if(t<=2.0*T/3.0)
    {
      subfactor = factor.template segment<4>(4);
    }
    else
    {
      subfactor = factor.template segment<4>(8);
    }
""", """    int first = 8;
    if (t<=T/3.0)
    {
      first = 0;
    }
    else if(t<=2.0*T/3.0)
    {
      first = 4;
    }
    for(int i=0; i<4; ++i)
    {
      subfactor(i) = factor(first + i);
    }
"""))
rf('hum-cost-helper', 'C12 C13 C14', (W, """    if (weighting_.velocityTracking>0.0)
    {
      qpMatrices.Q +=
          weighting_.velocityTracking*velTrackingObj_.getHessian();

      qpMatrices.p +=
          weighting_.velocityTracking*velTrackingObj_.getGradient(X_);
    }

    if (weighting_.jerkMinimization>0.0)
    {
      qpMatrices.Q +=
          weighting_.jerkMinimization*jerkMinObj_.getHessian();

      qpMatrices.p +=
          weighting_.jerkMinimization*jerkMinObj_.getGradient(X_);
    }
""", """    addObjective(weighting_.velocityTracking, velTrackingObj_, X_, qpMatrices);
    addObjective(weighting_.jerkMinimization, jerkMinObj_, X_, qpMatrices);
"""), (W, """namespace MPCWalkgen
{
""", """namespace MPCWalkgen
{
  namespace
  {
    template <typename S, typename Objective, typename Vec>
    void addObjective(S weight, Objective& objective, const Vec& x, QPMatrices<S>& qp)
    {
      if (!(weight>0.0))
      {
        return;
      }
      qp.Q += weight*objective.getHessian();
      qp.p += weight*objective.getGradient(x);
    }
  }
"""))
rf('hum-init-cop', 'C13 C12', (W, """      X_.segment(0, N) =
          rot.block(0,0,N,N)*VectorX::Constant(N, copInitialPosXinWF - getLeftFootStateX()(0)) +
          rot.block(0,N,N,N)*VectorX::Constant(N, copInitialPosYinWF - getLeftFootStateY()(0));

      X_.segment(N, N) =
          rot.block(N,0,N,N)*VectorX::Constant(N, copInitialPosXinWF - getLeftFootStateX()(0)) +
          rot.block(N,N,N,N)*VectorX::Constant(N, copInitialPosYinWF - getLeftFootStateY()(0));
""", """      VectorX offset(2*N);
      offset.head(N).setConstant(copInitialPosXinWF - getLeftFootStateX()(0));
      offset.tail(N).setConstant(copInitialPosYinWF - getLeftFootStateY()(0));
      X_.head(2*N) = rot*offset;
"""))
rf('hum-convert', 'C13', (W, """    transformedX_.segment(0, N) = rotT.block(0, 0, N, N)*X_.segment(0, N)
        + rotT.block(0, N, N, N)*X_.segment(N, N);
    transformedX_.segment(N, N) = rotT.block(N, 0, N, N)*X_.segment(0, N)
        + rotT.block(N, N, N, N)*X_.segment(N, N);

    transformedX_.segment(0, N) += footPosU*X_.segment(2*N, M);
    transformedX_.segment(N, N) += footPosU*X_.segment(2*N + M, M);

    transformedX_.segment(0, N) += footPosS*feetSupervisor_.getSupportFootStateX()(0);
    transformedX_.segment(N, N) += footPosS*feetSupervisor_.getSupportFootStateY()(0);

    transformedX_.segment(0, N) -= dynCopX.S*getComStateX() + dynCopX.K;
    transformedX_.segment(N, N) -= dynCopY.S*getComStateY() + dynCopY.K;

    VectorX tmp = transformedX_;

    transformedX_.segment(0, N) = dynCopX.Uinv*tmp.segment(0, N);
    transformedX_.segment(N, N) = dynCopY.Uinv*tmp.segment(N, N);
""", """    const VectorX copInWF = rotT*X_.head(2*N);

    const VectorX x = copInWF.head(N) + footPosU*X_.segment(2*N, M)
        + footPosS*feetSupervisor_.getSupportFootStateX()(0)
        - dynCopX.S*getComStateX() - dynCopX.K;
    transformedX_.segment(0, N).noalias() = dynCopX.Uinv*x;

    const VectorX y = copInWF.tail(N) + footPosU*X_.tail(M)
        + footPosS*feetSupervisor_.getSupportFootStateY()(0)
        - dynCopY.S*getComStateY() - dynCopY.K;
    transformedX_.segment(N, N).noalias() = dynCopY.Uinv*y;
"""))
rf('hum-constant-part', 'C14 C21', (W, """        nbVariables = 2*lipModel_.getNbSamples() + 2*i;

        qpoasesSolverVec_.push_back(makeQPSolver<Scalar>(nbVariables, j));
        qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j].Q.setZero(nbVariables, nbVariables);
        qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j].p.setZero(nbVariables);

        qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j].A.setZero(j, nbVariables);
        qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j].bl.setConstant(j,
                                                            -Constant<Scalar>::MAXIMUM_BOUND_VALUE);
        qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j].bu.setConstant(j,
                                                            Constant<Scalar>::MAXIMUM_BOUND_VALUE);

        qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j].xl.setConstant(nbVariables,
                                                            -Constant<Scalar>::MAXIMUM_BOUND_VALUE);
        qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j].xu.setConstant(nbVariables,
                                                            Constant<Scalar>::MAXIMUM_BOUND_VALUE);
""", """        nbVariables = 2*lipModel_.getNbSamples() + 2*i;
        const Scalar bound = Constant<Scalar>::MAXIMUM_BOUND_VALUE;

        QPMatrices<Scalar>& qp = qpMatrixVec_[i*(maximumNbOfConstraints_ + 1) + j];
        qpoasesSolverVec_.push_back(makeQPSolver<Scalar>(nbVariables, j));
        qp.Q = MatrixX::Zero(nbVariables, nbVariables);
        qp.p = VectorX::Zero(nbVariables);

        qp.A = MatrixX::Zero(j, nbVariables);
        qp.bl = VectorX::Constant(j, -bound);
        qp.bu = VectorX::Constant(j, bound);

        qp.xl = VectorX::Constant(nbVariables, -bound);
        qp.xu = VectorX::Constant(nbVariables, bound);
"""))
